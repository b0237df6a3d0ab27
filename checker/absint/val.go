package absint

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable.
type Val interface{}

type (
	// IntV is an integer given by a linear form.
	IntV struct{ L Lin }
	// BVV is an unsigned integer given bit by bit.
	BVV struct{ B []Bit }
	// Bit is 0 (no atoms), 1, or the disjunction of boolean atoms.
	Bit struct {
		One bool
		Or  []string
	}
	BoolV struct{ C Cond }
	// PtrV is the address of a heap cell ("" is nil).
	PtrV struct{ Cell string }
	// ElemP is the address of an element (or a part of it) of an array cell.
	ElemP struct {
		Arr  string
		Idx  Lin
		Path string
	}
	// StrV is a string, SliceV a slice of an array cell ("" is the nil slice).
	// From is the memory a string shares, nil for a real string.
	StrV struct {
		S    []Seg
		From Val
	}
	SliceV struct {
		Arr           string
		Off, Len, Cap Lin
	}
	// ArrV is the content of an array cell.
	ArrV struct {
		Len  Lin
		P    []Piece
		Elem types.Type
	}
	// SegsV is a sequence (monitor state).
	SegsV   struct{ S []Seg }
	StructV struct {
		T types.Type
		F []Val
	}
	IfaceV struct {
		T types.Type
		V Val
	}
	// OpqV is an unknown value with an identity.
	OpqV struct {
		N string
		T types.Type
	}
	NilV  struct{}
	FuncV struct {
		Fn   *ssa.Function
		Bind []Val
	}
	TupV struct{ V []Val }
	// MapC is the content of a map object.
	MapC struct {
		Keys []Val
		Vals []Val
		Abs  []Val // keys known to be absent
		Rest bool  // other entries may be present
		N    string
	}
	// ListV is a list of values (monitor state).
	ListV struct{ V []Val }
	// RingV is the content of a modelled ring buffer.
	RingV struct {
		View    SliceV // when Mode == 'v'
		S       []Seg  // when Mode == 'o'
		Mode    byte   // 'o' owned, 'v' view over a caller's slice
		VR      Lin    // virtual read offset
		Flag    bool   // marked empty by a virtual read up to its end
		Wrap    byte   // 0 undecided, 'l' linear, 'w' wrapped
		Split   Lin    // where it wraps
		Drained bool   // a virtual read reached the end
		Put     int    // times returned to the pool
		Pool    bool
	}
)

// Seg is a run [Lo,Hi) of the elements of a token, a literal element (Tok ""),
// zeroes (Tok "0") or unknown elements (Tok "?").
type Seg struct {
	Tok    string
	V      Val
	Lo, Hi Lin
}

// Piece places a segment in an array.
type Piece struct {
	Lo, Hi Lin
	S      Seg
}

func (s Seg) Len() Lin { return s.Hi.Sub(s.Lo) }

// Cond is a boolean condition.
type Cond struct {
	K   byte // 'c' const, 'g' L>=0, 'e' L==0, 'a' atom
	Neg bool
	B   bool
	L   Lin
	A   string
}

func True() Cond        { return Cond{K: 'c', B: true} }
func False() Cond       { return Cond{K: 'c'} }
func BoolC(b bool) Cond { return Cond{K: 'c', B: b} }
func GE(l Lin) Cond { // l >= 0
	if l.IsC() {
		return BoolC(l.C >= 0)
	}
	return Cond{K: 'g', L: l}
}
func LT(a, b Lin) Cond { return GE(b.Sub(a).AddC(-1)) }
func LE(a, b Lin) Cond { return GE(b.Sub(a)) }
func EQ(a, b Lin) Cond {
	l := a.Sub(b)
	if l.IsC() {
		return BoolC(l.C == 0)
	}
	if l.T[0].K < 0 {
		l = l.Neg()
	}
	return Cond{K: 'e', L: l}
}
func Atom(a string) Cond { return Cond{K: 'a', A: a} }

func (c Cond) Not() Cond {
	switch c.K {
	case 'c':
		return BoolC(!c.B)
	case 'g':
		return GE(c.L.Neg().AddC(-1))
	}
	c.Neg = !c.Neg
	return c
}

func (c Cond) String() string {
	n := ""
	if c.Neg {
		n = "!"
	}
	switch c.K {
	case 'c':
		return strconv.FormatBool(c.B)
	case 'g':
		return n + "(" + c.L.String() + ">=0)"
	case 'e':
		return n + "(" + c.L.String() + "==0)"
	}
	return n + c.A
}

func zeroBit() Bit         { return Bit{} }
func (b Bit) IsZero() bool { return !b.One && len(b.Or) == 0 }
func (b Bit) String() string {
	if b.One {
		return "1"
	}
	if len(b.Or) == 0 {
		return "0"
	}
	return strings.Join(b.Or, "|")
}

func orBit(a, b Bit) Bit {
	if a.One || b.One {
		return Bit{One: true}
	}
	m := append([]string{}, a.Or...)
	for _, x := range b.Or {
		dup := false
		for _, y := range m {
			if x == y {
				dup = true
			}
		}
		if !dup {
			m = append(m, x)
		}
	}
	sortStrings(m)
	return Bit{Or: m}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (b BVV) key() string {
	var s []string
	for _, x := range b.B {
		s = append(s, x.String())
	}
	return strings.Join(s, ",")
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// Key gives the canonical text of a value.
func Key(v Val) string {
	var b strings.Builder
	wkey(&b, v)
	return b.String()
}

func wsegs(b *strings.Builder, s []Seg) {
	for i, x := range s {
		if i > 0 {
			b.WriteByte(' ')
		}
		wseg(b, x)
	}
}

func wseg(b *strings.Builder, x Seg) {
	if x.Tok == "" {
		b.WriteByte('\'')
		wkey(b, x.V)
		return
	}
	b.WriteString(x.Tok)
	if x.V != nil {
		b.WriteByte('(')
		wkey(b, x.V)
		b.WriteByte(')')
	}
	b.WriteByte('[')
	b.WriteString(x.Lo.String())
	b.WriteByte(':')
	b.WriteString(x.Hi.String())
	b.WriteByte(']')
}

func wkeys(b *strings.Builder, vs []Val) {
	for i, x := range vs {
		if i > 0 {
			b.WriteByte(';')
		}
		wkey(b, x)
	}
}

func wkey(b *strings.Builder, v Val) {
	switch v := v.(type) {
	case nil:
		b.WriteByte('_')
	case IntV:
		b.WriteString(v.L.String())
	case BVV:
		b.WriteString("bv[" + v.key() + "]")
	case WordV:
		b.WriteString(v.String())
	case WideP:
		wkey(b, v.P)
		fmt.Fprintf(b, ":%d", v.N)
	case BoolV:
		b.WriteString(v.C.String())
	case PtrV:
		b.WriteString("&" + v.Cell)
	case ElemP:
		b.WriteString("&" + v.Arr + "[" + v.Idx.String() + "]" + v.Path)
	case StrV:
		b.WriteString("str{")
		wsegs(b, v.S)
		b.WriteByte('}')
	case SegsV:
		b.WriteString("seq{")
		wsegs(b, v.S)
		b.WriteByte('}')
	case SliceV:
		if v.Arr == "" {
			b.WriteString("nilslice")
			return
		}
		b.WriteString("sl(" + v.Arr + "," + v.Off.String() + "," + v.Len.String() + "," + v.Cap.String() + ")")
	case ArrV:
		b.WriteString("arr(" + v.Len.String() + "){")
		for _, p := range v.P {
			b.WriteString(p.Lo.String() + ".." + p.Hi.String() + "=")
			wseg(b, p.S)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case StructV:
		b.WriteString("struct{")
		wkeys(b, v.F)
		b.WriteByte('}')
	case IfaceV:
		b.WriteString("if(" + typeName(v.T) + ",")
		wkey(b, v.V)
		b.WriteByte(')')
	case OpqV:
		b.WriteString(v.N)
	case NilV:
		b.WriteString("nil")
	case FuncV:
		b.WriteString("fn(" + v.Fn.String() + "|")
		wkeys(b, v.Bind)
		b.WriteByte(')')
	case TupV:
		b.WriteString("(")
		wkeys(b, v.V)
		b.WriteByte(')')
	case ListV:
		b.WriteString("list(")
		wkeys(b, v.V)
		b.WriteByte(')')
	case MapC:
		b.WriteString("map{")
		for i := range v.Keys {
			wkey(b, v.Keys[i])
			b.WriteByte(':')
			wkey(b, v.Vals[i])
			b.WriteByte(' ')
		}
		b.WriteString("-")
		wkeys(b, v.Abs)
		fmt.Fprintf(b, "%v %s}", v.Rest, v.N)
	case RingV:
		fmt.Fprintf(b, "ring(%c %v%v %d%v %d ", v.Mode, v.Flag, v.Drained, v.Wrap, v.Pool, v.Put)
		if v.Mode == 'v' {
			wkey(b, v.View)
		} else {
			wsegs(b, v.S)
		}
		b.WriteString(" vr=" + v.VR.String() + " sp=" + v.Split.String() + ")")
	case *ssa.Function:
		b.WriteString(v.String())
	case string:
		b.WriteString(v)
	default:
		fmt.Fprintf(b, "%T:%v", v, v)
	}
}

// mapper rewrites the names and linear forms inside values.
type mapper struct {
	name func(string) string
	lin  func(Lin) Lin
}

func (m mapper) l(l Lin) Lin {
	if m.lin != nil {
		l = m.lin(l)
	}
	if m.name != nil {
		l = l.MapAtoms(m.name)
	}
	return l
}

func (m mapper) s(s string) string {
	if m.name != nil {
		return m.name(s)
	}
	return s
}

func (m mapper) seg(x Seg) Seg {
	x.Tok = m.s(x.Tok)
	x.V = m.v(x.V)
	x.Lo, x.Hi = m.l(x.Lo), m.l(x.Hi)
	return x
}

func (m mapper) segs(s []Seg) []Seg {
	if s == nil {
		return nil
	}
	r := make([]Seg, len(s))
	for i := range s {
		r[i] = m.seg(s[i])
	}
	return r
}

func (m mapper) vs(s []Val) []Val {
	if s == nil {
		return nil
	}
	r := make([]Val, len(s))
	for i := range s {
		r[i] = m.v(s[i])
	}
	return r
}

func (m mapper) cond(c Cond) Cond {
	switch c.K {
	case 'g':
		return GE(m.l(c.L))
	case 'e':
		r := EQ(m.l(c.L), Lin{})
		if c.Neg {
			r = r.Not()
		}
		return r
	case 'a':
		c.A = m.s(c.A)
	}
	return c
}

func (m mapper) bit(b Bit) Bit {
	if len(b.Or) == 0 || m.name == nil {
		return b
	}
	r := Bit{}
	for _, a := range b.Or {
		r = orBit(r, Bit{Or: []string{m.s(a)}})
	}
	return r
}

func (m mapper) v(v Val) Val {
	switch v := v.(type) {
	case IntV:
		return IntV{m.l(v.L)}
	case BVV:
		r := BVV{B: make([]Bit, len(v.B))}
		for i := range v.B {
			r.B[i] = m.bit(v.B[i])
		}
		return r
	case BoolV:
		return BoolV{m.cond(v.C)}
	case PtrV:
		return PtrV{m.s(v.Cell)}
	case ElemP:
		return ElemP{m.s(v.Arr), m.l(v.Idx), v.Path}
	case WideP:
		return WideP{m.v(v.P).(ElemP), v.N}
	case StrV:
		r := StrV{S: m.segs(v.S)}
		if v.From != nil {
			r.From = m.v(v.From)
		}
		return r
	case SegsV:
		return SegsV{m.segs(v.S)}
	case SliceV:
		return SliceV{m.s(v.Arr), m.l(v.Off), m.l(v.Len), m.l(v.Cap)}
	case ArrV:
		r := ArrV{Len: m.l(v.Len), Elem: v.Elem, P: make([]Piece, len(v.P))}
		for i, p := range v.P {
			r.P[i] = Piece{m.l(p.Lo), m.l(p.Hi), m.seg(p.S)}
		}
		return r
	case StructV:
		return StructV{v.T, m.vs(v.F)}
	case IfaceV:
		return IfaceV{v.T, m.v(v.V)}
	case OpqV:
		return OpqV{m.s(v.N), v.T}
	case FuncV:
		return FuncV{v.Fn, m.vs(v.Bind)}
	case TupV:
		return TupV{m.vs(v.V)}
	case ListV:
		return ListV{m.vs(v.V)}
	case MapC:
		return MapC{m.vs(v.Keys), m.vs(v.Vals), m.vs(v.Abs), v.Rest, m.s(v.N)}
	case RingV:
		v.View = m.v(v.View).(SliceV)
		v.S = m.segs(v.S)
		v.VR = m.l(v.VR)
		v.Split = m.l(v.Split)
		return v
	}
	return v
}

// eachVal visits the value and everything inside it.
func eachVal(v Val, f func(Val)) {
	f(v)
	all := func(vs []Val) {
		for _, x := range vs {
			eachVal(x, f)
		}
	}
	segs := func(s []Seg) {
		for _, x := range s {
			if x.V != nil {
				eachVal(x.V, f)
			}
		}
	}
	switch v := v.(type) {
	case StrV:
		segs(v.S)
		if v.From != nil {
			eachVal(v.From, f)
		}
	case SegsV:
		segs(v.S)
	case ArrV:
		for _, p := range v.P {
			if p.S.V != nil {
				eachVal(p.S.V, f)
			}
		}
	case StructV:
		all(v.F)
	case IfaceV:
		eachVal(v.V, f)
	case FuncV:
		all(v.Bind)
	case TupV:
		all(v.V)
	case ListV:
		all(v.V)
	case MapC:
		all(v.Keys)
		all(v.Vals)
		all(v.Abs)
	case RingV:
		segs(v.S)
		if v.Mode == 'v' {
			f(v.View)
		}
	}
}
