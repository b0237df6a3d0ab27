package absint

import (
	"go/types"
	"strconv"
	"strings"
)

func segsLen(ss []Seg) Lin {
	var l Lin
	for _, x := range ss {
		l = l.Add(x.Len())
	}
	return l
}

// SegsLen is the number of elements of a sequence.
func SegsLen(ss []Seg) Lin { return segsLen(ss) }

// normSegs joins adjacent runs of one token and drops runs known to be empty.
func normSegs(s *State, ss []Seg) []Seg {
	var r []Seg
	for _, x := range ss {
		if x.Tok != "" && s.EntailsEQ(x.Len()) {
			continue
		}
		x = byteSeg(x)
		if n := len(r); n > 0 && x.Tok != "" && r[n-1].Tok == x.Tok && Key(r[n-1].V) == Key(x.V) && x.Tok != "?" {
			if x.Tok == "0" {
				r[n-1].Hi = r[n-1].Hi.Add(x.Len())
				continue
			}
			if r[n-1].Hi.Eq(x.Lo) || s.EntailsEQ(r[n-1].Hi.Sub(x.Lo)) {
				r[n-1].Hi = x.Hi
				continue
			}
		}
		r = append(r, x)
	}
	return r
}

// byteSeg turns a literal element that is a byte of a token into a run of it.
func byteSeg(x Seg) Seg {
	if x.Tok != "" {
		return x
	}
	iv, ok := x.V.(IntV)
	if !ok {
		return x
	}
	a, ok := iv.L.Single()
	if !ok || !strings.HasPrefix(a, "b(") {
		return x
	}
	i := strings.LastIndexByte(a, '@')
	if i < 0 {
		return x
	}
	n, err := strconv.ParseInt(a[i+1:len(a)-1], 10, 64)
	if err != nil || strings.HasPrefix(a[2:], "\"") {
		return x
	}
	return Seg{Tok: a[2:i], Lo: C(n), Hi: C(n + 1)}
}

// NormSegs normalises a sequence under the state's facts.
func NormSegs(s *State, ss []Seg) []Seg { return normSegs(s, ss) }

// SameSegs reports whether two sequences are equal under the facts.
func SameSegs(s *State, a, b []Seg) bool {
	a, b = normSegs(s, a), normSegs(s, b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Tok == "?" || y.Tok == "?" {
			return false
		}
		if x.Tok != y.Tok || Key(x.V) != Key(y.V) {
			return false
		}
		if x.Tok == "0" {
			if !s.EntailsEQ(x.Len().Sub(y.Len())) {
				return false
			}
			continue
		}
		if !s.EntailsEQ(x.Lo.Sub(y.Lo)) || !s.EntailsEQ(x.Hi.Sub(y.Hi)) {
			return false
		}
	}
	return true
}

// subSegs is the part [lo,hi) of a sequence.
func (e *Engine) subSegs(s *State, ss []Seg, lo, hi Lin) []Seg {
	if s.EntailsEQ(hi.Sub(lo)) {
		return nil
	}
	var r []Seg
	pos := Lin{}
	total := segsLen(ss)
	if lo.Eq(Lin{}) && s.EntailsEQ(hi.Sub(total)) {
		return ss
	}
	want := hi.Sub(lo)
	for _, x := range ss {
		end := pos.Add(x.Len())
		// entirely before lo?
		if s.EntailsGE(lo.Sub(end)) {
			pos = end
			continue
		}
		if s.EntailsGE(pos.Sub(hi)) {
			break
		}
		y := x
		if s.EntailsGE(lo.Sub(pos)) {
			y.Lo = x.Lo.Add(lo.Sub(pos))
		} else if !s.EntailsGE(pos.Sub(lo)) {
			return []Seg{{Tok: "?", Hi: want}}
		}
		if s.EntailsGE(hi.Sub(end)) {
			// whole rest
		} else if s.EntailsGE(end.Sub(hi)) {
			y.Hi = x.Lo.Add(hi.Sub(pos))
		} else {
			return []Seg{{Tok: "?", Hi: want}}
		}
		if y.Tok == "0" {
			y = Seg{Tok: "0", Hi: y.Len()}
		}
		r = append(r, y)
		pos = end
	}
	r = normSegs(s, r)
	if !s.EntailsEQ(segsLen(r).Sub(want)) {
		return []Seg{{Tok: "?", Hi: want}}
	}
	return r
}

// SubSegs is the part [lo,hi) of a sequence.
func (e *Engine) SubSegs(s *State, ss []Seg, lo, hi Lin) []Seg { return e.subSegs(s, ss, lo, hi) }

// write replaces [lo,hi) of the array.
func (a ArrV) write(s *State, lo, hi Lin, src []Seg) ArrV {
	r := ArrV{Len: a.Len, Elem: a.Elem}
	if s.EntailsEQ(hi.Sub(lo)) {
		return a
	}
	var before, after []Piece
	for _, p := range a.P {
		switch {
		case s.EntailsGE(lo.Sub(p.Hi)):
			before = append(before, p)
		case s.EntailsGE(p.Lo.Sub(hi)):
			after = append(after, p)
		default:
			// overlap
			loIn := s.EntailsGE(lo.Sub(p.Lo)) // p.Lo <= lo
			hiIn := s.EntailsGE(p.Hi.Sub(hi)) // hi <= p.Hi
			coversLo := s.EntailsGE(p.Lo.Sub(lo))
			coversHi := s.EntailsGE(hi.Sub(p.Hi))
			if !(loIn || coversLo) || !(hiIn || coversHi) {
				// unknown overlap
				q := p
				q.S = Seg{Tok: "?", Hi: p.Hi.Sub(p.Lo)}
				if loIn {
					// the part before lo is intact
					b := p
					b.Hi = lo
					b.S = cutSeg(p.S, Lin{}, lo.Sub(p.Lo))
					before = append(before, b)
					q.Lo = hi
					q.S.Hi = q.Hi.Sub(q.Lo)
					after = append(after, q)
				} else {
					before = append(before, q)
				}
				continue
			}
			if loIn && !coversLo {
				b := p
				b.Hi = lo
				b.S = cutSeg(p.S, Lin{}, lo.Sub(p.Lo))
				before = append(before, b)
			}
			if hiIn && !coversHi {
				b := p
				b.Lo = hi
				b.S = cutSeg(p.S, hi.Sub(p.Lo), p.Hi.Sub(p.Lo))
				after = append(after, b)
			}
		}
	}
	pos := lo
	for _, x := range src {
		if x.Tok == "" && noValue(x.V) {
			x = Seg{Tok: "0", Hi: C(1)}
		}
		n := pos.Add(x.Len())
		before = append(before, Piece{pos, n, x})
		pos = n
	}
	for _, p := range append(before, after...) {
		if p.S.Tok != "" && s.EntailsEQ(p.Hi.Sub(p.Lo)) {
			continue
		}
		if n := len(r.P); n > 0 && (p.S.Tok == "0" || p.S.Tok == "?") && r.P[n-1].S.Tok == p.S.Tok {
			q := &r.P[n-1]
			q.Hi = p.Hi
			q.S.Lo, q.S.Hi = Lin{}, q.Hi.Sub(q.Lo)
			continue
		}
		r.P = append(r.P, p)
	}
	return r
}

// noValue: nil, of whatever type.
func noValue(v Val) bool {
	switch v := v.(type) {
	case NilV:
		return true
	case PtrV:
		return v.Cell == ""
	case SliceV:
		return v.Arr == ""
	}
	return false
}

func cutSeg(x Seg, lo, hi Lin) Seg {
	y := x
	y.Lo = x.Lo.Add(lo)
	y.Hi = x.Lo.Add(hi)
	if x.Tok == "0" || x.Tok == "?" {
		y.Lo, y.Hi = Lin{}, hi.Sub(lo)
	}
	return y
}

// read is the content of [lo,hi) of the array.
func (a ArrV) read(e *Engine, s *State, lo, hi Lin) []Seg {
	if s.EntailsEQ(hi.Sub(lo)) {
		return nil
	}
	unk := []Seg{{Tok: "?", Hi: hi.Sub(lo)}}
	var r []Seg
	pos := lo
	for _, p := range a.P {
		if s.EntailsEQ(pos.Sub(hi)) {
			break
		}
		if s.EntailsGE(pos.Sub(p.Hi)) {
			continue // before the range
		}
		if s.EntailsGE(p.Lo.Sub(hi)) {
			break
		}
		if !s.EntailsGE(pos.Sub(p.Lo)) {
			// a gap, or unknown order
			return unk
		}
		if s.EntailsGE(hi.Sub(p.Hi)) {
			r = append(r, cutSeg(p.S, pos.Sub(p.Lo), p.Hi.Sub(p.Lo)))
			pos = p.Hi
		} else if s.EntailsGE(p.Hi.Sub(hi)) {
			r = append(r, cutSeg(p.S, pos.Sub(p.Lo), hi.Sub(p.Lo)))
			pos = hi
		} else {
			return unk
		}
	}
	if !s.EntailsEQ(pos.Sub(hi)) {
		return unk
	}
	return normSegs(s, r)
}

// ReadSlice is the current content of a slice.
func (e *Engine) ReadSlice(s *State, v SliceV) []Seg {
	if v.Arr == "" {
		return nil
	}
	return e.arrAt(s, v.Arr, nil).read(e, s, v.Off, v.Off.Add(v.Len))
}

// WriteSlice overwrites the beginning of a slice.
func (e *Engine) WriteSlice(s *State, v SliceV, src []Seg) {
	if v.Arr == "" {
		return
	}
	s.Heap[v.Arr] = e.arrAt(s, v.Arr, nil).write(s, v.Off, v.Off.Add(segsLen(src)), src)
}

func (e *Engine) arrElem(s *State, a ArrV, i Lin, t types.Type) Val {
	return e.elemOf(s, a.read(e, s, i, i.AddC(1)), t)
}

func (e *Engine) segElem(s *State, ss []Seg, i Lin, t types.Type) Val {
	return e.elemOf(s, e.subSegs(s, ss, i, i.AddC(1)), t)
}

// elemOf is the value of a one-element sequence.
func (e *Engine) elemOf(s *State, ss []Seg, t types.Type) Val {
	if len(ss) != 1 {
		return e.opaque(s, "unknownelem", t)
	}
	x := ss[0]
	switch {
	case x.Tok == "":
		return x.V
	case x.Tok == "0":
		return e.zero(t)
	case x.Tok == "?":
		return e.opaque(s, "?", t)
	case strings.HasPrefix(x.Tok, "\"") && x.Lo.IsC():
		return IntV{C(int64(x.Tok[1:][x.Lo.C]))}
	case x.Tok == "be":
		// byte of a big-endian integer: most significant first
		w := e.lin(x.V.(TupV).V[1]).C
		if x.Lo.IsC() {
			b, ok := e.bits(x.V.(TupV).V[0], int(w)*8)
			if ok {
				k := int(w-1-x.Lo.C) * 8
				return mkInt(BVV{b.B[k : k+8]})
			}
		}
	}
	if isInt(t) {
		return IntV{At("b(" + x.Tok + "@" + x.Lo.String() + ")")}
	}
	if strings.HasPrefix(x.Tok, "<any:") {
		return e.opaque(s, "elem("+x.Tok+")", t) // elements are not told apart
	}
	v := e.opaque(s, "elem("+x.Tok+"@"+x.Lo.String()+")", t)
	if e.OnElem != nil {
		if r := e.OnElem(s, x.Tok, x.Lo, v); r != nil {
			return r
		}
	}
	return v
}

// splitElem forks a state that is about to use element i of an array in which
// single values lie at unknown positions, until i lies before, on or behind
// each of them.
func (e *Engine) splitElem(s *State, arr string, i Lin) []*State {
	if !e.SplitElems {
		return nil
	}
	a, ok := s.Heap[arr].(ArrV)
	if !ok {
		return nil
	}
	for _, p := range a.P {
		if p.S.Tok != "" || p.Lo.IsC() {
			continue
		}
		before, at := LE(i.AddC(1), p.Lo), EQ(i, p.Lo)
		if s.Decide(before) == 1 || s.Decide(at) == 1 || s.EntailsGE(i.Sub(p.Hi)) {
			continue
		}
		var out []*State
		for _, c := range []Cond{before, at, LE(p.Hi, i)} {
			t := s.Clone()
			if t.Assume(c) {
				out = append(out, t)
			}
		}
		return out
	}
	return nil
}

// ElemOf is the value of the element at position i of a sequence.
func (e *Engine) ElemOf(s *State, ss []Seg, i Lin, t types.Type) Val { return e.segElem(s, ss, i, t) }

// Write replaces [lo,hi) of the array.
func (a ArrV) Write(s *State, lo, hi Lin, src []Seg) ArrV { return a.write(s, lo, hi, src) }
