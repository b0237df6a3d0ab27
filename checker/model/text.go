package model

import (
	"fmt"
	"go/types"
	"net/http"
	"net/textproto"
	"strconv"
	"strings"

	. "gevcheck/absint"
)

// A text is a sequence of bytes and of tokens of unknown content. What cannot
// occur in a token is known to the world: Absent gives the texts of which no
// occurrence lies within it.

func (w *World) text(st *State, v Val) ([]Seg, bool) {
	switch v := v.(type) {
	case SliceV:
		return w.E.ReadSlice(st, v), true
	case StrV:
		return v.S, true
	case NilV:
		return nil, true
	case IfaceV:
		return w.text(st, v.V)
	}
	return nil, false
}

// part is the piece [lo,hi) of a string or slice.
func (w *World) part(st *State, v Val, lo, hi Lin) Val {
	switch v := v.(type) {
	case SliceV:
		if v.Arr == "" {
			return v
		}
		return SliceV{Arr: v.Arr, Off: v.Off.Add(lo), Len: hi.Sub(lo), Cap: v.Cap.Sub(lo)}
	case StrV:
		r := StrV{S: w.E.SubSegs(st, v.S, lo, hi)}
		if sl, ok := v.From.(SliceV); ok {
			r.From = SliceV{Arr: sl.Arr, Off: sl.Off.Add(lo), Len: hi.Sub(lo), Cap: hi.Sub(lo)}
		}
		return r
	}
	return v
}

// an item is a byte or a token of a text.
type item struct {
	b   int64 // the byte, or -1
	seg Seg
	pos Lin
}

func items(ss []Seg) []item {
	var r []item
	pos := Lin{}
	for _, x := range ss {
		switch {
		case strings.HasPrefix(x.Tok, "\"") && x.Lo.IsC() && x.Hi.IsC():
			for i := x.Lo.C; i < x.Hi.C; i++ {
				r = append(r, item{b: int64(x.Tok[1:][i]), pos: pos.AddC(i - x.Lo.C)})
			}
		case x.Tok == "":
			b := int64(-1)
			if iv, ok := x.V.(IntV); ok && iv.L.IsC() {
				b = iv.L.C
			}
			r = append(r, item{b: b, seg: x, pos: pos})
		default:
			r = append(r, item{b: -1, seg: x, pos: pos})
		}
		pos = pos.Add(x.Len())
	}
	return r
}

// ConstText is the text of constant bytes.
func ConstText(ss []Seg) (string, bool) {
	var b []byte
	for _, i := range items(ss) {
		if i.b < 0 {
			return "", false
		}
		b = append(b, byte(i.b))
	}
	return string(b), true
}

// TextSegs is a constant text.
func TextSegs(s string) []Seg {
	if s == "" {
		return nil
	}
	return []Seg{{Tok: "\"" + s, Hi: C(int64(len(s)))}}
}

// lacks tells whether no byte of lit is in the token.
func (w *World) lacks(tok, lit string) bool {
	for i := 0; i < len(lit); i++ {
		ok := false
		for _, a := range w.Absent[tok] {
			ok = ok || a == lit[i:i+1]
		}
		if !ok {
			return false
		}
	}
	return true
}

// noTouch tells whether no occurrence of lit touches the item.
func (w *World) noTouch(st *State, all []item, i int, lit string) bool {
	x := all[i].seg
	if x.Tok == "" || x.Tok == "?" {
		return false
	}
	if len(lit) > 1 && !st.EntailsGE(x.Len().AddC(-1)) {
		return false // what lies around it may meet
	}
	if w.lacks(x.Tok, lit) {
		return true
	}
	if len(all) == 1 {
		for _, a := range w.Absent[x.Tok] {
			if strings.Contains(lit, a) {
				return true
			}
		}
	}
	// every occurrence has a byte at the token's end that it lacks
	return false
}

// finds gives the positions at which lit occurs, not overlapping, at most max
// of them (all if negative); known is false when that cannot be told.
func (w *World) finds(st *State, ss []Seg, lit string, max int) (pos []Lin, known bool) {
	all := items(ss)
	for i := 0; i < len(all); {
		if max >= 0 && len(pos) >= max {
			return pos, true
		}
		if all[i].b < 0 {
			if !w.noTouch(st, all, i, lit) {
				return pos, false
			}
			i++
			continue
		}
		ok := true
		for j := 0; j < len(lit); j++ {
			if i+j >= len(all) {
				ok = false
				break
			}
			if all[i+j].b < 0 {
				if !w.noTouch(st, all, i+j, lit) {
					return pos, false
				}
				ok = false
				break
			}
			if all[i+j].b != int64(lit[j]) {
				ok = false
				break
			}
		}
		if ok {
			pos = append(pos, all[i].pos)
			i += len(lit)
		} else {
			i++
		}
	}
	return pos, true
}

// find is the position of the first occurrence, unknown if it has to be.
func (w *World) find(c *Call, ss []Seg, lit string) []Out {
	st := c.St
	if lit == "" {
		return one(st, num(0))
	}
	p, ok := w.finds(st, ss, lit, 1)
	if len(p) > 0 {
		return one(st, IntV{p[0]})
	}
	if ok {
		return one(st, num(-1))
	}
	no := st.Clone()
	i := At("i(index(" + Key(SegsV{S: ss}) + "," + strconv.Quote(lit) + "))")
	outs := one(no, num(-1))
	if st.Assume(GE(i)) && st.Assume(LE(i.AddC(int64(len(lit))), SegsLen(ss))) {
		outs = append(outs, Out{St: st, Res: []Val{IntV{i}}})
	}
	return outs
}

// byteIn tells whether the byte at a position is one of set.
func (w *World) byteIn(st *State, ss []Seg, i Lin, set string) (in, known bool) {
	v := w.E.ElemOf(st, ss, i, byteType)
	n := w.E.Lin(v)
	if n.IsC() {
		return strings.IndexByte(set, byte(n.C)) >= 0, true
	}
	known = true
	for j := 0; j < len(set); j++ {
		if !st.EntailsNE(n.AddC(-int64(set[j]))) {
			known = false
		}
	}
	return false, known
}

// trim gives the bounds of a text without the bytes of set at its ends.
func (w *World) trim(st *State, ss []Seg, set string, left, right bool) (Lin, Lin) {
	lo, hi := Lin{}, SegsLen(ss)
	for left && !st.EntailsEQ(hi.Sub(lo)) {
		in, ok := w.byteIn(st, ss, lo, set)
		if !ok || !st.EntailsGE(hi.Sub(lo).AddC(-1)) {
			panic(Undecided{Msg: "trimming of an unknown text"})
		}
		if !in {
			break
		}
		lo = lo.AddC(1)
	}
	for right && !st.EntailsEQ(hi.Sub(lo)) {
		in, ok := w.byteIn(st, ss, hi.AddC(-1), set)
		if !ok || !st.EntailsGE(hi.Sub(lo).AddC(-1)) {
			panic(Undecided{Msg: "trimming of an unknown text"})
		}
		if !in {
			break
		}
		hi = hi.AddC(-1)
	}
	return lo, hi
}

// equalText is the condition that two texts are equal.
func (w *World) equalText(st *State, a, b []Seg) Cond {
	return w.E.Equal(st, StrV{S: a}, StrV{S: b}, types.Typ[types.String])
}

// equalFold is equality without regard to the case of ASCII letters.
func (w *World) equalFold(st *State, a, b []Seg) Cond {
	x, y := items(a), items(b)
	p, ok1 := ConstText(a)
	q, ok2 := ConstText(b)
	if ok1 && ok2 {
		return BoolC(strings.EqualFold(p, q))
	}
	differ := func(i, j int) bool {
		if x[i].b >= 0 && y[j].b >= 0 {
			return !strings.EqualFold(string(rune(x[i].b)), string(rune(y[j].b)))
		}
		u, v := x[i], y[j]
		if u.b >= 0 {
			u, v = v, u
		}
		if v.b < 0 || !st.EntailsGE(u.seg.Len().AddC(-1)) {
			return false
		}
		c := string(rune(v.b))
		set := strings.ToLower(c) + strings.ToUpper(c)
		in, ok := w.byteIn(st, []Seg{u.seg}, Lin{}, set)
		return ok && !in
	}
	for i := 0; i < len(x) && i < len(y); i++ {
		if differ(i, i) {
			return False()
		}
		if x[i].b < 0 || y[i].b < 0 {
			break
		}
	}
	if st.EntailsNE(SegsLen(a).Sub(SegsLen(b))) {
		return False()
	}
	ka, kb := Key(SegsV{S: a}), Key(SegsV{S: b})
	if ka > kb {
		ka, kb = kb, ka
	}
	return Atom("fold(" + ka + "," + kb + ")")
}

// ---- buffers and writers ----

func hidden(c string) string { return c + "/~text" }

func (w *World) buffered(st *State, cell string) []Seg {
	if v, ok := st.Heap[hidden(cell)].(SegsV); ok {
		return v.S
	}
	return nil
}

func (w *World) setBuffered(st *State, cell string, ss []Seg) {
	st.Heap[hidden(cell)] = SegsV{S: NormSegs(st, ss)}
}

func cellOf(v Val) string {
	if i, ok := v.(IfaceV); ok {
		v = i.V
	}
	if p, ok := v.(PtrV); ok && p.Cell != "" {
		return p.Cell
	}
	panic(Undecided{Msg: fmt.Sprintf("writing to %s", Key(v))})
}

// writeTo appends to a writer that is known to collect what it gets.
func (w *World) writeTo(st *State, to Val, ss []Seg) {
	if i, ok := to.(IfaceV); ok {
		switch fmt.Sprint(i.T) {
		case "*bytes.Buffer", "*bufio.Writer", "*strings.Builder":
		default:
			if f, ok := w.Writers[fmt.Sprint(i.T)]; ok {
				f(st, i.V, ss)
				return
			}
			panic(Undecided{Msg: fmt.Sprintf("writing to a %s", i.T)})
		}
	}
	cell := cellOf(to)
	w.setBuffered(st, cell, append(append([]Seg(nil), w.buffered(st, cell)...), ss...))
}

func (w *World) itoa(st *State, v Val) []Seg {
	l := w.E.Lin(v)
	if l.IsC() {
		return TextSegs(strconv.FormatInt(l.C, 10))
	}
	t := "itoa(" + l.String() + ")"
	n := At("len(" + t + ")")
	st.Assume(GE(n.AddC(-1)))
	return []Seg{{Tok: t, Hi: n}}
}

// format is what a format with known verbs makes.
func (w *World) format(st *State, f string, args []Val) []Seg {
	var r []Seg
	unknown := func(x string) {
		r = append(r, Seg{Tok: x, Hi: At("len(" + x + ")")})
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = append(r, TextSegs(f[i:i+1])...)
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			r = append(r, TextSegs("%")...)
			continue
		}
		if len(args) == 0 {
			unknown("format(" + f + ")")
			return r
		}
		a := args[0]
		args = args[1:]
		ss, isText := w.text(st, a)
		if iv, ok := a.(IfaceV); ok {
			a = iv.V
		}
		s, isConst := ConstText(ss)
		_, isInt := a.(IntV)
		switch {
		case (f[i] == 's' || f[i] == 'v') && isText:
			r = append(r, ss...)
		case f[i] == 'q' && isText && isConst:
			r = append(r, TextSegs(strconv.Quote(s))...)
		case (f[i] == 'd' || f[i] == 'v') && isInt:
			r = append(r, w.itoa(st, a)...)
		default:
			unknown("format(" + f + "," + Key(a) + ")")
		}
	}
	return NormSegs(st, r)
}

func (w *World) variadic(st *State, v Val) []Val {
	sl, ok := v.(SliceV)
	if !ok || sl.Arr == "" || !sl.Len.IsC() {
		return nil
	}
	a, ok := st.Heap[sl.Arr].(ArrV)
	if !ok {
		return nil
	}
	var r []Val
	ss := w.E.ReadSlice(st, sl)
	for i := int64(0); i < sl.Len.C; i++ {
		r = append(r, w.E.ElemOf(st, ss, C(i), a.Elem))
	}
	return r
}

func (w *World) textModels() {
	in := w.E.Intr
	// fn registers a function for byte slices and strings
	fn := func(name string, f func(c *Call, v Val, ss []Seg) []Out) {
		g := func(c *Call) []Out {
			ss, ok := w.text(c.St, c.Args[0])
			if !ok {
				return nilOuts(c, w)
			}
			return f(c, c.Args[0], ss)
		}
		in["bytes."+name] = g
		in["strings."+name] = g
	}
	lit := func(c *Call) (string, bool) {
		ss, ok := w.text(c.St, c.Args[1])
		if !ok {
			return "", false
		}
		return ConstText(ss)
	}
	fn("Index", func(c *Call, v Val, ss []Seg) []Out {
		l, ok := lit(c)
		if !ok {
			return nilOuts(c, w)
		}
		return w.find(c, ss, l)
	})
	oneByte := func(c *Call, v Val, ss []Seg) []Out {
		n := w.E.Lin(c.Args[1])
		if !n.IsC() || n.C > 127 || n.C < 0 {
			return nilOuts(c, w)
		}
		return w.find(c, ss, string(rune(n.C)))
	}
	fn("IndexByte", oneByte)
	fn("IndexRune", oneByte)
	fn("LastIndex", func(c *Call, v Val, ss []Seg) []Out {
		l, ok := lit(c)
		if !ok || l == "" {
			return nilOuts(c, w)
		}
		p, ok := w.finds(c.St, ss, l, -1)
		if !ok || len(l) > 1 && len(p) > 0 {
			panic(Undecided{Msg: "last occurrence in an unknown text"})
		}
		if len(p) == 0 {
			return one(c.St, num(-1))
		}
		return one(c.St, IntV{p[len(p)-1]})
	})
	fn("LastIndexByte", func(c *Call, v Val, ss []Seg) []Out {
		n := w.E.Lin(c.Args[1])
		if !n.IsC() {
			return nilOuts(c, w)
		}
		p, ok := w.finds(c.St, ss, string(rune(n.C)), -1)
		if !ok {
			panic(Undecided{Msg: "last occurrence in an unknown text"})
		}
		if len(p) == 0 {
			return one(c.St, num(-1))
		}
		return one(c.St, IntV{p[len(p)-1]})
	})
	fn("Contains", func(c *Call, v Val, ss []Seg) []Out {
		l, ok := lit(c)
		if !ok {
			return nilOuts(c, w)
		}
		var outs []Out
		for _, o := range w.find(c, ss, l) {
			outs = append(outs, Out{St: o.St, Res: []Val{BoolV{GE(w.E.Lin(o.Res[0]))}}})
		}
		return outs
	})
	fn("HasPrefix", func(c *Call, v Val, ss []Seg) []Out {
		l, _ := w.text(c.St, c.Args[1])
		n := SegsLen(l)
		return w.cond(c, GE(SegsLen(ss).Sub(n)), func(t *State) Cond {
			return w.equalText(t, w.E.SubSegs(t, ss, Lin{}, n), l)
		})
	})
	fn("HasSuffix", func(c *Call, v Val, ss []Seg) []Out {
		l, _ := w.text(c.St, c.Args[1])
		n := SegsLen(l)
		return w.cond(c, GE(SegsLen(ss).Sub(n)), func(t *State) Cond {
			m := SegsLen(ss)
			return w.equalText(t, w.E.SubSegs(t, ss, m.Sub(n), m), l)
		})
	})
	in["bytes.Equal"] = func(c *Call) []Out {
		a, ok1 := w.text(c.St, c.Args[0])
		b, ok2 := w.text(c.St, c.Args[1])
		if !ok1 || !ok2 {
			return nilOuts(c, w)
		}
		return one(c.St, BoolV{w.equalText(c.St, a, b)})
	}
	fn("EqualFold", func(c *Call, v Val, ss []Seg) []Out {
		b, ok := w.text(c.St, c.Args[1])
		if !ok {
			return nilOuts(c, w)
		}
		return one(c.St, BoolV{w.equalFold(c.St, ss, b)})
	})
	split := func(c *Call, v Val, ss []Seg, max int) []Out {
		l, ok := lit(c)
		if !ok || l == "" {
			return nilOuts(c, w)
		}
		var p []Lin
		if max != 0 {
			m := max
			if m > 0 {
				m--
			}
			p, ok = w.finds(c.St, ss, l, m)
			if !ok {
				panic(Undecided{Msg: "splitting of an unknown text"})
			}
		}
		var parts []Seg
		at := Lin{}
		add := func(to Lin) {
			x := w.part(c.St, v, at, to)
			parts = append(parts, Seg{V: x, Hi: C(1)})
		}
		for _, q := range p {
			add(q)
			at = q.AddC(int64(len(l)))
		}
		add(SegsLen(ss))
		cell := "new:" + c.St.Fresh(c.Site+".parts")
		n := C(int64(len(parts)))
		a := ArrV{Len: n, Elem: c.Sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()}
		c.St.Heap[cell] = a.Write(c.St, Lin{}, n, parts)
		return one(c.St, SliceV{Arr: cell, Len: n, Cap: n})
	}
	fn("Split", func(c *Call, v Val, ss []Seg) []Out { return split(c, v, ss, -1) })
	fn("SplitN", func(c *Call, v Val, ss []Seg) []Out {
		n := w.E.Lin(c.Args[2])
		if !n.IsC() || n.C == 0 {
			return nilOuts(c, w)
		}
		return split(c, v, ss, int(n.C))
	})
	fn("Cut", func(c *Call, v Val, ss []Seg) []Out {
		l, ok := lit(c)
		if !ok {
			return nilOuts(c, w)
		}
		var outs []Out
		for _, o := range w.find(c, ss, l) {
			p := w.E.Lin(o.Res[0])
			n := SegsLen(ss)
			if p.IsC() && p.C < 0 {
				rest := Val(SliceV{})
				if _, ok := v.(StrV); ok {
					rest = StrV{}
				}
				outs = append(outs, Out{St: o.St, Res: []Val{v, rest, boolean(false)}})
				continue
			}
			outs = append(outs, Out{St: o.St, Res: []Val{w.part(o.St, v, Lin{}, p), w.part(o.St, v, p.AddC(int64(len(l))), n), boolean(true)}})
		}
		return outs
	})
	trim := func(set string, left, right bool) func(c *Call, v Val, ss []Seg) []Out {
		return func(c *Call, v Val, ss []Seg) []Out {
			s := set
			if s == "" {
				var ok bool
				if s, ok = lit(c); !ok {
					return nilOuts(c, w)
				}
			}
			lo, hi := w.trim(c.St, ss, s, left, right)
			return one(c.St, w.part(c.St, v, lo, hi))
		}
	}
	fn("TrimSpace", trim(" \t\r\n\v\f", true, true))
	fn("Trim", trim("", true, true))
	fn("TrimLeft", trim("", true, false))
	fn("TrimRight", trim("", false, true))
	affix := func(suffix bool) func(c *Call, v Val, ss []Seg) []Out {
		return func(c *Call, v Val, ss []Seg) []Out {
			l, ok := lit(c)
			n, m := SegsLen(ss), C(int64(len(l)))
			if !ok || !c.St.EntailsGE(n.Sub(m)) {
				return nilOuts(c, w)
			}
			lo, hi := m, n
			x := w.E.SubSegs(c.St, ss, Lin{}, m)
			if suffix {
				lo, hi = Lin{}, n.Sub(m)
				x = w.E.SubSegs(c.St, ss, hi, n)
			}
			switch c.St.Decide(w.equalText(c.St, x, TextSegs(l))) {
			case 1:
				return one(c.St, w.part(c.St, v, lo, hi))
			case 0:
				return one(c.St, v)
			}
			return nilOuts(c, w)
		}
	}
	fn("TrimPrefix", affix(false))
	fn("TrimSuffix", affix(true))
	mapped := func(f func(string) string) func(c *Call, v Val, ss []Seg) []Out {
		return func(c *Call, v Val, ss []Seg) []Out {
			s, ok := ConstText(ss)
			if !ok {
				return nilOuts(c, w)
			}
			if _, ok := v.(StrV); ok {
				return one(c.St, StrV{S: TextSegs(f(s))})
			}
			return one(c.St, w.sliceOf(c.St, c.Site+".mapped", TextSegs(f(s))))
		}
	}
	fn("ToLower", mapped(strings.ToLower))
	fn("ToUpper", mapped(strings.ToUpper))
	constStr := func(name string, f func(string) string) {
		old := in[name]
		in[name] = func(c *Call) []Out {
			if ss, ok := w.text(c.St, c.Args[0]); ok {
				if s, ok := ConstText(ss); ok {
					return one(c.St, StrV{S: TextSegs(f(s))})
				}
			}
			if old != nil {
				return old(c)
			}
			return nilOuts(c, w)
		}
	}
	constStr("net/textproto.CanonicalMIMEHeaderKey", textproto.CanonicalMIMEHeaderKey)
	constStr("net/http.CanonicalHeaderKey", http.CanonicalHeaderKey)
	in["net/http.StatusText"] = func(c *Call) []Out {
		n := w.E.Lin(c.Args[0])
		if !n.IsC() {
			t := "status(" + n.String() + ")"
			return one(c.St, StrV{S: []Seg{{Tok: t, Hi: At("len(" + t + ")")}}})
		}
		return one(c.St, StrV{S: TextSegs(http.StatusText(int(n.C)))})
	}
	in["strconv.Itoa"] = func(c *Call) []Out { return one(c.St, StrV{S: w.itoa(c.St, c.Args[0])}) }
	in["fmt.Sprintf"] = func(c *Call) []Out {
		ss, _ := w.text(c.St, c.Args[0])
		f, ok := ConstText(ss)
		if !ok {
			return nilOuts(c, w)
		}
		return one(c.St, StrV{S: w.format(c.St, f, w.variadic(c.St, c.Args[1]))})
	}
	in["fmt.Fprintf"] = func(c *Call) []Out {
		ss, _ := w.text(c.St, c.Args[1])
		f, ok := ConstText(ss)
		if !ok {
			panic(Undecided{Msg: "an unknown format"})
		}
		x := w.format(c.St, f, w.variadic(c.St, c.Args[2]))
		w.writeTo(c.St, c.Args[0], x)
		return one(c.St, IntV{SegsLen(x)}, NilV{})
	}
	in["io.WriteString"] = func(c *Call) []Out {
		ss, ok := w.text(c.St, c.Args[1])
		if !ok {
			panic(Undecided{Msg: "writing an unknown text"})
		}
		w.writeTo(c.St, c.Args[0], ss)
		return one(c.St, IntV{SegsLen(ss)}, NilV{})
	}
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)", "(*bufio.Writer)"} {
		write := func(c *Call) []Out {
			ss, ok := w.text(c.St, c.Args[1])
			if !ok {
				panic(Undecided{Msg: "writing an unknown text"})
			}
			w.writeTo(c.St, c.Args[0], ss)
			return one(c.St, IntV{SegsLen(ss)}, NilV{})
		}
		in[t+".Write"] = write
		in[t+".WriteString"] = write
		in[t+".WriteByte"] = func(c *Call) []Out {
			w.writeTo(c.St, c.Args[0], []Seg{{V: c.Args[1], Hi: C(1)}})
			return one(c.St, NilV{})
		}
		in[t+".Grow"] = func(c *Call) []Out { return one(c.St) }
	}
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		in[t+".Len"] = func(c *Call) []Out {
			return one(c.St, IntV{SegsLen(w.buffered(c.St, cellOf(c.Args[0])))})
		}
		in[t+".Reset"] = func(c *Call) []Out {
			w.setBuffered(c.St, cellOf(c.Args[0]), nil)
			return one(c.St)
		}
		in[t+".String"] = func(c *Call) []Out {
			return one(c.St, StrV{S: w.buffered(c.St, cellOf(c.Args[0]))})
		}
	}
	in["(*bytes.Buffer).Bytes"] = func(c *Call) []Out {
		cell := cellOf(c.Args[0])
		v := w.sliceOf(c.St, c.Site+".bytes", w.buffered(c.St, cell))
		if sl, ok := v.(SliceV); ok && sl.Arr != "" {
			gPush(c.St, "bytesof", TupV{V: []Val{TextV(sl.Arr), TextV(cell)}})
		}
		return one(c.St, v)
	}
	mk := func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".buffer")
		ss, ok := w.text(c.St, c.Args[0])
		if !ok {
			panic(Undecided{Msg: "a buffer of unknown content"})
		}
		w.setBuffered(c.St, cell, ss)
		return one(c.St, PtrV{Cell: cell})
	}
	in["bytes.NewBuffer"] = mk
	in["bytes.NewBufferString"] = mk
	bw := func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".writer")
		c.St.Heap[cell+"/~to"] = c.Args[0]
		w.setBuffered(c.St, cell, nil)
		return one(c.St, PtrV{Cell: cell})
	}
	in["bufio.NewWriter"] = bw
	in["bufio.NewWriterSize"] = bw
	in["(*bufio.Writer).Reset"] = func(c *Call) []Out {
		cell := cellOf(c.Args[0])
		c.St.Heap[cell+"/~to"] = c.Args[1]
		w.setBuffered(c.St, cell, nil)
		return one(c.St)
	}
	in["(*bufio.Writer).Flush"] = func(c *Call) []Out {
		cell := cellOf(c.Args[0])
		to, ok := c.St.Heap[cell+"/~to"]
		if !ok {
			panic(Undecided{Msg: "a writer of unknown origin"})
		}
		w.writeTo(c.St, to, w.buffered(c.St, cell))
		w.setBuffered(c.St, cell, nil)
		return one(c.St, NilV{})
	}
	in["(*bufio.Writer).Buffered"] = func(c *Call) []Out {
		return one(c.St, IntV{SegsLen(w.buffered(c.St, cellOf(c.Args[0])))})
	}
	// what comes from a pool may be anything that was put into it before
	in["(*sync.Pool).Get"] = func(c *Call) []Out {
		st := c.St
		k := "pool:" + c.Site
		if v, ok := st.G[k]; ok {
			delete(st.G, k)
			w.stale(st, v)
			return one(st, v)
		}
		p, ok := c.Args[0].(PtrV)
		if !ok {
			panic(Undecided{Msg: "an unknown pool"})
		}
		f, _ := w.E.LoadRaw(st, p.Cell+"/New", types.NewSignatureType(nil, nil, nil, nil, nil, false))
		if _, ok := f.(FuncV); !ok {
			return nilOuts(c, w)
		}
		return []Out{{St: st, Again: true, Then: f, Got: func(st *State, res []Val) []*State {
			st.G[k] = res[0]
			return []*State{st}
		}}}
	}
	in["(*sync.Pool).Put"] = func(c *Call) []Out {
		v := c.Args[1]
		if i, ok := v.(IfaceV); ok {
			v = i.V
		}
		switch v := v.(type) {
		case SliceV:
			gPush(c.St, "pooledback", TextV(v.Arr))
		case PtrV:
			gPush(c.St, "pooledback", TextV(v.Cell))
			if sl, ok := c.St.Heap[v.Cell].(SliceV); ok {
				gPush(c.St, "pooledback", TextV(sl.Arr))
			}
		}
		return one(c.St)
	}
	// digests and their texts are terms
	digest := func(ss []Seg) []Seg {
		return []Seg{{Tok: "sha1", V: SegsV{S: ss}, Hi: C(20)}}
	}
	in["crypto/sha1.Sum"] = func(c *Call) []Out {
		ss, ok := w.text(c.St, c.Args[0])
		if !ok {
			return nilOuts(c, w)
		}
		a := ArrV{Len: C(20), Elem: byteType}
		return one(c.St, a.Write(c.St, Lin{}, C(20), digest(NormSegs(c.St, ss))))
	}
	in["crypto/sha1.New"] = func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".hash")
		w.setBuffered(c.St, cell, nil)
		c.St.Heap[cell] = OpqV{N: "sha1"}
		return one(c.St, OpqV{N: "hash<" + cell + ">", T: c.Sig.Results().At(0).Type()})
	}
	hashCell := func(v Val) string {
		if o, ok := v.(OpqV); ok && strings.HasPrefix(o.N, "hash<") {
			return o.N[5 : len(o.N)-1]
		}
		panic(Undecided{Msg: "an unknown hash"})
	}
	in["iface:hash.Hash.Write"] = func(c *Call) []Out {
		ss, ok := w.text(c.St, c.Args[1])
		if !ok {
			panic(Undecided{Msg: "hashing an unknown text"})
		}
		h := hashCell(c.Args[0])
		w.setBuffered(c.St, h, append(append([]Seg(nil), w.buffered(c.St, h)...), ss...))
		return one(c.St, IntV{SegsLen(ss)}, NilV{})
	}
	in["iface:hash.Hash.Reset"] = func(c *Call) []Out {
		w.setBuffered(c.St, hashCell(c.Args[0]), nil)
		return one(c.St)
	}
	in["iface:hash.Hash.Sum"] = func(c *Call) []Out {
		return w.E.AppendSegs(c, c.Args[1], digest(w.buffered(c.St, hashCell(c.Args[0]))), byteType)
	}
	b64 := func(ss []Seg) []Seg {
		n := SegsLen(ss)
		if !n.IsC() {
			panic(Undecided{Msg: "base64 of a text of unknown length"})
		}
		return []Seg{{Tok: "b64", V: SegsV{S: ss}, Hi: C((n.C + 2) / 3 * 4)}}
	}
	std := func(c *Call) string {
		return Key(c.Args[0])
	}
	enc := func(c *Call, ss []Seg) []Seg {
		r := b64(NormSegs(c.St, ss))
		if k := std(c); !strings.Contains(k, "encoding/base64.StdEncoding") {
			r[0].Tok = "b64other"
		}
		return r
	}
	in["(*encoding/base64.Encoding).Encode"] = func(c *Call) []Out {
		dst, ok := c.Args[1].(SliceV)
		src, ok2 := w.text(c.St, c.Args[2])
		if !ok || !ok2 {
			panic(Undecided{Msg: "encoding an unknown text"})
		}
		r := enc(c, src)
		enough := c.St.EntailsGE(dst.Len.Sub(SegsLen(r)))
		if w.E.OnBounds != nil {
			w.E.OnBounds(c.St, "base64", enough, c.Instr)
		}
		if !enough {
			return []Out{}
		}
		w.E.WriteSlice(c.St, dst, r)
		return one(c.St)
	}
	in["(*encoding/base64.Encoding).EncodeToString"] = func(c *Call) []Out {
		src, ok := w.text(c.St, c.Args[1])
		if !ok {
			panic(Undecided{Msg: "encoding an unknown text"})
		}
		return one(c.St, StrV{S: enc(c, src)})
	}
	in["(*encoding/base64.Encoding).AppendEncode"] = func(c *Call) []Out {
		src, ok := w.text(c.St, c.Args[2])
		if !ok {
			panic(Undecided{Msg: "encoding an unknown text"})
		}
		return w.E.AppendSegs(c, c.Args[1], enc(c, src), byteType)
	}
	in["(*encoding/base64.Encoding).EncodedLen"] = func(c *Call) []Out {
		n := w.E.Lin(c.Args[1])
		if !n.IsC() {
			return nilOuts(c, w)
		}
		return one(c.St, num((n.C+2)/3*4))
	}
	// the tokens of a list
	in["github.com/gobwas/httphead.ScanTokens"] = func(c *Call) []Out {
		st := c.St
		ss, ok := w.text(st, c.Args[0])
		if !ok {
			return nilOuts(c, w)
		}
		k := "scan:" + c.Site
		if gInt(st, k+":stop") == 1 {
			delete(st.G, k+":stop")
			delete(st.G, k)
			return one(st, boolean(true))
		}
		n := gInt(st, k)
		toks, ok := w.listed(st, ss)
		if !ok {
			panic(Undecided{Msg: "the tokens of an unknown list"})
		}
		if int(n) >= len(toks) {
			delete(st.G, k)
			return one(st, boolean(len(toks) > 0))
		}
		gSet(st, k, n+1)
		t := toks[n]
		return []Out{{St: st, Again: true, Then: c.Args[1], With: []Val{w.part(st, c.Args[0], t[0], t[1])},
			Got: func(st *State, res []Val) []*State {
				b, ok := res[0].(BoolV)
				if !ok {
					panic(Undecided{Msg: "an unknown answer"})
				}
				no := st.Clone()
				var r []*State
				if st.Assume(b.C) {
					r = append(r, st)
				}
				if no.Assume(b.C.Not()) {
					gSet(no, k+":stop", 1)
					r = append(r, no)
				}
				return r
			}}}
	}
}

// listed gives the bounds of the elements of a list separated by commas.
func (w *World) listed(st *State, ss []Seg) ([][2]Lin, bool) {
	p, ok := w.finds(st, ss, ",", -1)
	if !ok {
		return nil, false
	}
	var r [][2]Lin
	at := Lin{}
	for _, q := range append(p, SegsLen(ss)) {
		x := w.E.SubSegs(st, ss, at, q)
		lo, hi := w.trim(st, x, " \t", true, true)
		if !st.EntailsEQ(hi.Sub(lo)) {
			r = append(r, [2]Lin{at.Add(lo), at.Add(hi)})
		}
		at = q.AddC(1)
	}
	return r, true
}

// cond is a condition that needs another one to be evaluated.
func (w *World) cond(c *Call, pre Cond, f func(t *State) Cond) []Out {
	var outs []Out
	no := c.St.Clone()
	if no.Assume(pre.Not()) {
		outs = append(outs, Out{St: no, Res: []Val{boolean(false)}})
	}
	if c.St.Assume(pre) {
		outs = append(outs, Out{St: c.St, Res: []Val{BoolV{f(c.St)}}})
	}
	return outs
}

// Clean makes a part of a name of a text.
func Clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

// TextV is a text as a monitor's value.
func TextV(s string) Val { return StrV{S: TextSegs(s)} }

// stale: the memory may hold what somebody else left there.
func (w *World) stale(st *State, v Val) {
	if i, ok := v.(IfaceV); ok {
		switch fmt.Sprint(i.T) {
		case "*bytes.Buffer", "*strings.Builder":
			t := "<stale" + st.Fresh("pool") + ">"
			w.setBuffered(st, cellOf(v), []Seg{{Tok: t, Hi: At("len(" + t + ")")}})
			return
		}
		v = i.V
	}
	if p, ok := v.(PtrV); ok {
		if x, ok := st.Heap[p.Cell]; ok {
			v = x
		}
	}
	if sl, ok := v.(SliceV); ok && sl.Arr != "" {
		if a, ok := st.Heap[sl.Arr].(ArrV); ok {
			st.Heap[sl.Arr] = ArrV{Len: a.Len, Elem: a.Elem, P: []Piece{{Hi: a.Len, S: Seg{Tok: "?", Hi: a.Len}}}}
		}
	}
}

// Backing gives the memory a slice lies in: its array, and the buffer it is
// the content of.
func (w *World) Backing(st *State, arr string) []string {
	r := []string{arr}
	for _, v := range gList(st, "bytesof") {
		t := v.(TupV)
		a, _ := ConstString(t.V[0])
		b, _ := ConstString(t.V[1])
		if a == arr {
			r = append(r, b)
		}
	}
	return r
}
