package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// XByte is the exclusive or of a constant and unknown bytes, each of which
// occurs once.
type XByte struct {
	C byte
	A []string
}

// WordV is an unsigned integer given byte by byte, lowest first.
type WordV struct{ B []XByte }

// WideP is the address of N consecutive bytes seen as one integer.
type WideP struct {
	P ElemP
	N int
}

func (b XByte) IsZero() bool { return b.C == 0 && len(b.A) == 0 }

func (b XByte) String() string {
	if len(b.A) == 0 {
		return fmt.Sprint(b.C)
	}
	s := strings.Join(b.A, "^")
	if b.C != 0 {
		s += fmt.Sprintf("^%d", b.C)
	}
	return s
}

// XorByte is the exclusive or of two bytes.
func XorByte(a, b XByte) XByte {
	m := map[string]bool{}
	for _, x := range append(append([]string(nil), a.A...), b.A...) {
		m[x] = !m[x]
	}
	r := XByte{C: a.C ^ b.C}
	for x, odd := range m {
		if odd {
			r.A = append(r.A, x)
		}
	}
	sort.Strings(r.A)
	return r
}

func (v WordV) String() string {
	var p []string
	for _, b := range v.B {
		p = append(p, b.String())
	}
	return "word[" + strings.Join(p, ",") + "]"
}

// word gives n bytes of a value.
func (e *Engine) word(v Val, n int) (WordV, bool) {
	r := WordV{B: make([]XByte, n)}
	switch v := v.(type) {
	case WordV:
		copy(r.B, v.B)
		return r, true
	case IntV:
		if v.L.IsC() {
			for i := 0; i < n && i < 8; i++ {
				r.B[i].C = byte(uint64(v.L.C) >> uint(8*i))
			}
			return r, true
		}
	}
	return r, false
}

// Word gives n bytes of a value.
func (e *Engine) Word(v Val, n int) (WordV, bool) { return e.word(v, n) }

// MkWord is the value of bytes.
func MkWord(w WordV) Val {
	var c uint64
	for i, b := range w.B {
		if len(b.A) > 0 {
			return w
		}
		c |= uint64(b.C) << uint(8*i)
	}
	if c>>63 != 0 {
		return w
	}
	return IntV{C(int64(c))}
}

// wordOp is an operation of two integers of which one is known by bytes.
func (e *Engine) wordOp(op token.Token, x, y Val, rt types.Type) (Val, bool) {
	_, xw := x.(WordV)
	_, yw := y.(WordV)
	if !xw && !yw {
		return nil, false
	}
	w, _ := intWidth(rt)
	n := w / 8
	a, ok := e.word(x, n)
	if !ok {
		return nil, false
	}
	r := WordV{B: make([]XByte, n)}
	if op == token.SHL || op == token.SHR {
		k, ok := y.(IntV)
		if !ok || !k.L.IsC() || k.L.C%8 != 0 {
			return nil, false
		}
		for i := range r.B {
			j := i - int(k.L.C/8)
			if op == token.SHR {
				j = i + int(k.L.C/8)
			}
			if j >= 0 && j < n {
				r.B[i] = a.B[j]
			}
		}
		return MkWord(r), true
	}
	b, ok := e.word(y, n)
	if !ok {
		return nil, false
	}
	if op == token.MUL {
		// by a constant of ones and zeroes
		if !yw {
			a, b = b, a
		}
		for i, k := range a.B {
			if len(k.A) > 0 || k.C > 1 {
				return nil, false
			}
			for j := 0; k.C == 1 && i+j < n; j++ {
				if !r.B[i+j].IsZero() {
					return nil, false
				}
				r.B[i+j] = b.B[j]
			}
		}
		return MkWord(r), true
	}
	for i := range r.B {
		p, q := a.B[i], b.B[i]
		switch {
		case op == token.XOR:
			r.B[i] = XorByte(p, q)
		case op == token.OR || op == token.ADD:
			switch {
			case p.IsZero():
				r.B[i] = q
			case q.IsZero():
				r.B[i] = p
			case op == token.OR && p.String() == q.String():
				r.B[i] = p
			default:
				return nil, false
			}
		case op == token.AND:
			switch {
			case p.IsZero() || q.IsZero():
			case len(p.A) == 0 && p.C == 255 || p.String() == q.String():
				r.B[i] = q
			case len(q.A) == 0 && q.C == 255:
				r.B[i] = p
			default:
				return nil, false
			}
		case op == token.AND_NOT:
			switch {
			case p.IsZero() || len(q.A) == 0 && q.C == 255 || p.String() == q.String():
			case q.IsZero():
				r.B[i] = p
			default:
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return MkWord(r), true
}

// wide turns the address of a byte into the address of a wider integer.
func (e *Engine) wide(v Val, to types.Type) (Val, bool) {
	b, ok := deref(to).Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	w, _ := intWidth(b)
	var p ElemP
	switch v := v.(type) {
	case PtrV:
		if v.Cell == "" {
			return nil, false
		}
		p = ElemP{Arr: v.Cell}
	case ElemP:
		p = v
	case WideP:
		p = v.P
	default:
		return nil, false
	}
	if p.Path != "" {
		return nil, false
	}
	if w == 8 {
		return p, true
	}
	return WideP{P: p, N: w / 8}, true
}

func (e *Engine) loadWide(s *State, p WideP, in ssa.Instruction) (Val, bool) {
	a, ok := s.Heap[p.P.Arr].(ArrV)
	if !ok {
		return nil, false
	}
	e.wideBounds(s, p, a, in)
	r := WordV{}
	for i := 0; i < p.N; i++ {
		b, ok := e.word(e.arrElem(s, a, p.P.Idx.AddC(int64(i)), types.Typ[types.Uint8]), 1)
		if !ok {
			return nil, false
		}
		r.B = append(r.B, b.B[0])
	}
	return MkWord(r), true
}

func (e *Engine) storeWide(s *State, p WideP, v Val, in ssa.Instruction) bool {
	a, ok := s.Heap[p.P.Arr].(ArrV)
	if !ok {
		return false
	}
	e.wideBounds(s, p, a, in)
	w, ok := e.word(v, p.N)
	if !ok {
		return false
	}
	for i, b := range w.B {
		at := p.P.Idx.AddC(int64(i))
		a = a.write(s, at, at.AddC(1), []Seg{{V: MkWord(WordV{B: []XByte{b}}), Hi: C(1)}})
	}
	s.Heap[p.P.Arr] = a
	return true
}

func (e *Engine) wideBounds(s *State, p WideP, a ArrV, in ssa.Instruction) {
	if e.OnBounds != nil {
		e.OnBounds(s, "access", s.EntailsGE(p.P.Idx) && s.EntailsGE(a.Len.Sub(p.P.Idx).AddC(-int64(p.N))), in)
	}
}
