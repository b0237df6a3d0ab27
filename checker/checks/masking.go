package checks

import (
	"fmt"
	"go/types"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: masking ----

// masked runs Cipher for each length and offset.
func masked(p *Program) *Result {
	const parts = 8
	var jobs []func() *Result
	for i := 0; i < parts; i++ {
		i := i
		jobs = append(jobs, func() *Result {
			r := newResult()
			var m *masking
			r.guarded("masking", func() {
				var st *State
				m, st = newMasking(p)
				top := int64(136)
				if Thorough {
					top = 330
				}
				var ns []int64
				for n := int64(0); n <= top; n++ {
					ns = append(ns, n)
				}
				ns = append(ns, 511, 512, 513, 517, 1031, 2053)
				for _, n := range ns {
					if n%parts != int64(i) {
						continue
					}
					for _, o := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 11, 1<<16 + 2, 1<<31 + 1, 1<<40 + 3} {
						if n > top && o > 3 {
							continue
						}
						m.run(st, n, o)
					}
				}
			})
			if m != nil {
				r.addWorld(m.w)
			}
			return r
		})
	}
	return parallel(jobs...)
}

type masking struct {
	w     *model.World
	where string
}

func newMasking(p *Program) (*masking, *State) {
	w, st := newWorld(p, model.WS)
	m := &masking{w: w, where: "Cipher"}
	e := w.E
	e.Narrow, e.Words, e.Unroll, e.Direct = true, true, 4096, true
	e.OnBounds = func(s *State, what string, ok bool, in ssa.Instruction) {
		w.Check(s, ok, "C35", "bounds", w.Where(in), "the %s is not within bounds (%s)", what, m.where)
	}
	e.OnPanic = func(s *State, in ssa.Instruction, why string) {
		w.Fail(s, "C35", "panic", w.Where(in), "%s (%s)", why, m.where)
	}
	for _, width := range []int{2, 4, 8} {
		for _, big := range []bool{false, true} {
			width, big := width, big
			kind := map[bool]string{false: "littleEndian", true: "bigEndian"}[big]
			order := func(w WordV) WordV {
				r := WordV{B: append([]XByte(nil), w.B...)}
				if big {
					for i := range r.B {
						r.B[i] = w.B[width-1-i]
					}
				}
				return r
			}
			get := func(c *Call) []Out {
				b, ok := m.bytes(c.St, c.Args[len(c.Args)-1])
				if !ok || len(b) < width {
					panic(Undecided{Msg: "integer from an unknown slice"})
				}
				return []Out{{St: c.St, Res: []Val{MkWord(order(WordV{B: b[:width]}))}}}
			}
			put := func(c *Call) []Out {
				sl, ok := c.Args[len(c.Args)-2].(SliceV)
				v, ok2 := e.Word(c.Args[len(c.Args)-1], width)
				if !ok || !ok2 {
					panic(Undecided{Msg: "an unknown integer into a slice"})
				}
				sl.Len = C(int64(width))
				m.set(c.St, sl, order(v).B)
				return []Out{{St: c.St}}
			}
			for _, t := range []string{kind, "nativeEndian"} {
				if t == "nativeEndian" && big {
					continue
				}
				e.Intr[fmt.Sprintf("(encoding/binary.%s).Uint%d", t, 8*width)] = get
				e.Intr[fmt.Sprintf("(encoding/binary.%s).PutUint%d", t, 8*width)] = put
			}
		}
	}
	for _, width := range []int{4, 8} {
		width := width
		e.Intr[fmt.Sprintf("math/bits.RotateLeft%d", 8*width)] = func(c *Call) []Out {
			v, ok := e.Word(c.Args[0], width)
			k := e.Lin(c.Args[1])
			if !ok || !k.IsC() || k.C%8 != 0 {
				panic(Undecided{Msg: "rotation of an unknown word"})
			}
			n := int(k.C/8)%width + width
			r := WordV{B: make([]XByte, width)}
			for i := range r.B {
				r.B[(i+n)%width] = v.B[i]
			}
			return []Out{{St: c.St, Res: []Val{MkWord(r)}}}
		}
	}
	e.Intr["crypto/subtle.XORBytes"] = func(c *Call) []Out {
		x, ok := m.bytes(c.St, c.Args[1])
		y, ok2 := m.bytes(c.St, c.Args[2])
		dst, ok3 := c.Args[0].(SliceV)
		if !ok || !ok2 || !ok3 {
			panic(Undecided{Msg: "XORBytes of an unknown slice"})
		}
		n := min(len(x), len(y))
		if n > 0 {
			var r []XByte
			for i := 0; i < n; i++ {
				r = append(r, XorByte(x[i], y[i]))
			}
			dst.Len = C(int64(n))
			m.set(c.St, dst, r)
		}
		return []Out{{St: c.St, Res: []Val{IntV{L: C(int64(n))}}}}
	}
	return m, st
}

// bytes gives the content of a slice of known length.
func (m *masking) bytes(st *State, v Val) ([]XByte, bool) {
	sl, ok := v.(SliceV)
	if !ok || !sl.Len.IsC() {
		return nil, false
	}
	if sl.Arr == "" {
		return nil, true
	}
	ss := m.w.E.ReadSlice(st, sl)
	var r []XByte
	for i := int64(0); i < sl.Len.C; i++ {
		w, ok := m.w.E.Word(m.w.E.ElemOf(st, ss, C(i), byteT), 1)
		if !ok {
			return nil, false
		}
		r = append(r, w.B[0])
	}
	return r, true
}

// set writes bytes into a slice.
func (m *masking) set(st *State, sl SliceV, bs []XByte) {
	var ss []Seg
	for _, b := range bs {
		ss = append(ss, Seg{V: MkWord(WordV{B: []XByte{b}}), Hi: C(1)})
	}
	m.w.E.WriteSlice(st, sl, ss)
}

func atoms(pre string, n int64) []XByte {
	var r []XByte
	for i := int64(0); i < n; i++ {
		r = append(r, XByte{A: []string{fmt.Sprintf("%s%d", pre, i)}})
	}
	return r
}

// run masks a payload twice.
func (m *masking) run(st0 *State, n, off int64) {
	w := m.w
	m.where = fmt.Sprintf("length %d, offset %d", n, off)
	const before, after = 3, 9
	st := st0.Clone()
	all := before + n + after
	arr := SliceV{Arr: "new:<payload>", Len: C(all), Cap: C(all)}
	st.Heap[arr.Arr] = ArrV{Len: C(all), Elem: byteT, P: []Piece{{Hi: C(all), S: Seg{Tok: "0", Hi: C(all)}}}}
	m.set(st, arr, atoms("a", all))
	mk := atoms("m", 4)
	var ps []Piece
	for i, b := range mk {
		ps = append(ps, Piece{Lo: C(int64(i)), Hi: C(int64(i) + 1), S: Seg{V: MkWord(WordV{B: []XByte{b}}), Hi: C(1)}})
	}
	mask := ArrV{Len: C(4), Elem: types.Typ[types.Uint8], P: ps}
	payload := SliceV{Arr: arr.Arr, Off: C(before), Len: C(n), Cap: C(n + after)}
	keep(st, "payload", arr)
	fn := w.Fn(model.WS, "Cipher")
	for round, rule := range []string{"masked", "twice"} {
		outs := call(w, st, fn, payload, mask, IntV{L: C(off)})
		if !w.Check(st, len(outs) == 1, "C35", rule, "Cipher", "%s: %d outcomes", m.where, len(outs)) {
			return
		}
		st = outs[0]
		got, ok := m.bytes(st, arr)
		if !w.Check(st, ok, "C35", rule, "Cipher", "%s: the result is unknown", m.where) {
			return
		}
		for i, b := range got {
			want := atoms("a", int64(i)+1)[i]
			at := int64(i) - before
			if at < 0 || at >= n {
				w.Check(st, b.String() == want.String(), "C35", "around", "Cipher", "%s: byte %d, outside the payload, becomes %s", m.where, at, b)
				continue
			}
			if round == 0 {
				want = XorByte(want, mk[(at+off)%4])
			}
			w.Check(st, b.String() == want.String(), "C35", rule, "Cipher", "%s: byte %d becomes %s instead of %s", m.where, at, b, want)
		}
	}
}
