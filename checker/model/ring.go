package model

import (
	. "gevcheck/absint"
)

// The ring buffer of the module's dependency. An owned ring holds a sequence;
// WithData turns it into a view over the caller's memory.

func (w *World) ring(st *State, v Val, c *Call) (string, RingV, bool) {
	p, ok := v.(PtrV)
	if !ok || p.Cell == "" {
		w.Fail(st, "C32", "nil-dereference", w.Where(c.Instr), "ring buffer operation on nil")
		return "", RingV{}, false
	}
	r, ok := st.Heap[p.Cell].(RingV)
	if !ok {
		r = RingV{Mode: 'o'}
		st.Heap[p.Cell] = r
	}
	if w.E.OnAccess != nil {
		w.E.OnAccess(st, p.Cell, true, c.Instr)
	}
	if r.Put > 0 && c.Name != "put" {
		w.Fail(st, "C06", "use-after-release", w.Where(c.Instr), "%s on a buffer that was returned to the pool", short(c.Name))
	}
	return p.Cell, r, true
}

func short(n string) string {
	for i := len(n) - 1; i >= 0; i-- {
		if n[i] == '/' {
			return n[i+1:]
		}
	}
	return n
}

// RingSegs is the readable content of a ring.
func (w *World) RingSegs(st *State, r RingV) []Seg {
	if r.Mode == 'v' {
		return w.E.ReadSlice(st, r.View)
	}
	return r.S
}

func (w *World) ringLen(r RingV) Lin {
	if r.Mode == 'v' {
		return r.View.Len
	}
	return SegsLen(r.S)
}

// drop removes the first k elements (k <= length).
func (w *World) drop(st *State, r RingV, k Lin) RingV {
	if r.Mode == 'v' {
		r.View = SliceV{Arr: r.View.Arr, Off: r.View.Off.Add(k), Len: r.View.Len.Sub(k), Cap: r.View.Cap.Sub(k)}
	} else {
		r.S = w.E.SubSegs(st, r.S, k, SegsLen(r.S))
		if r.Wrap == 'w' {
			switch {
			case st.EntailsGE(r.Split.Sub(k).AddC(-1)):
				r.Split = r.Split.Sub(k)
			case st.EntailsGE(k.Sub(r.Split)):
				r.Wrap = 'l'
				r.Split = Lin{}
			default:
				r.Wrap = 0
				r.Split = Lin{}
			}
		}
	}
	return r
}

func clearRing(r RingV) RingV {
	r.S = nil
	r.Mode = 'o'
	r.View = SliceV{}
	r.VR = Lin{}
	r.Flag = false
	r.Drained = false
	r.Wrap = 0
	r.Split = Lin{}
	return r
}

// isEmptyC is the condition that the ring reports itself empty.
func (w *World) isEmptyC(r RingV) Cond {
	if r.Flag {
		return True()
	}
	return EQ(w.ringLen(r), Lin{})
}

// layout forks on whether the content of an owned ring wraps around.
func (w *World) layout(st *State, cell string, r RingV, site string, f func(t *State, r RingV)) {
	if r.Mode == 'v' || r.Wrap != 0 {
		f(st, r)
		return
	}
	n := w.ringLen(r)
	t := st.Clone()
	if t.Assume(GE(n.AddC(-2))) {
		q := r
		q.Wrap = 'w'
		q.Split = At("pos(" + t.Fresh(site+".split") + ")")
		if t.Assume(GE(n.Sub(q.Split).AddC(-1))) {
			t.Heap[cell] = q
			t.Note("%s: buffered data wraps around", site)
			f(t, q)
		}
	}
	r.Wrap = 'l'
	st.Heap[cell] = r
	f(st, r)
}

func (w *World) sliceOf(st *State, name string, ss []Seg) Val {
	n := SegsLen(ss)
	if n.IsC() && n.C == 0 {
		return SliceV{}
	}
	cell := "new:" + st.Fresh(name)
	a := ArrV{Len: n}
	a.Elem = byteType
	st.Heap[cell] = a.Write(st, Lin{}, n, ss)
	return SliceV{Arr: cell, Len: n, Cap: n}
}

func (w *World) ringModels() {
	p := "(*" + Ring + ".RingBuffer)."
	in := w.E.Intr
	newRing := func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".ring")
		r := RingV{Mode: 'o'}
		if c.Name == Ring+".GetFromPool" {
			r.Pool = true
		}
		c.St.Heap[cell] = r
		return one(c.St, PtrV{cell})
	}
	in[Ring+".GetFromPool"] = newRing
	in[Ring+".New"] = newRing
	in[Ring+".NewWithData"] = func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".ring")
		c.St.Heap[cell] = RingV{Mode: 'v', View: c.Args[0].(SliceV)}
		return one(c.St, PtrV{cell})
	}
	in[Ring+".PutInPool"] = func(c *Call) []Out {
		pv, ok := c.Args[0].(PtrV)
		if !ok || pv.Cell == "" {
			w.Fail(c.St, "C32", "nil-dereference", w.Where(c.Instr), "nil buffer returned to the pool")
			return nil
		}
		r, ok := c.St.Heap[pv.Cell].(RingV)
		if !ok {
			r = RingV{Mode: 'o'}
		}
		w.Check(c.St, r.Put == 0, "C05,C06", "released-once", w.Where(c.Instr), "a buffer is returned to the pool twice")
		w.Check(c.St, r.Mode == 'o', "C05", "pool-owns-memory", w.Where(c.Instr), "a buffer that borrows the event loop's memory is returned to the pool")
		r = clearRing(r)
		if r.Put == 0 {
			gSet(c.St, "puts", gInt(c.St, "puts")+1)
		}
		r.Put = 1
		c.St.Heap[pv.Cell] = r
		return one(c.St)
	}
	// op wraps an operation on a ring
	op := func(name string, f func(c *Call, st *State, cell string, r RingV) []Out) {
		in[p+name] = func(c *Call) []Out {
			cell, r, ok := w.ring(c.St, c.Args[0], c)
			if !ok {
				return nil
			}
			return f(c, c.St, cell, r)
		}
	}
	op("WithData", func(c *Call, st *State, cell string, r RingV) []Out {
		sl, ok := c.Args[1].(SliceV)
		if !ok {
			panic(Undecided{"WithData of an unknown slice"})
		}
		r = clearRing(r)
		r.Mode = 'v'
		r.View = sl
		st.Heap[cell] = r
		return one(st)
	})
	op("IsEmpty", func(c *Call, st *State, cell string, r RingV) []Out {
		return one(st, BoolV{w.isEmptyC(r)})
	})
	op("IsFull", func(c *Call, st *State, cell string, r RingV) []Out {
		return one(st, w.E.Opaque(st, c.Site+".full", c.Sig.Results().At(0).Type()))
	})
	op("Length", func(c *Call, st *State, cell string, r RingV) []Out {
		return one(st, IntV{w.ringLen(r)})
	})
	op("Capacity", func(c *Call, st *State, cell string, r RingV) []Out {
		n := At("nn(" + st.Fresh(c.Site+".cap") + ")")
		st.Assume(LE(w.ringLen(r), n))
		return one(st, IntV{n})
	})
	reset := func(c *Call, st *State, cell string, r RingV) []Out {
		if r.Mode == 'v' {
			r.View = SliceV{Arr: r.View.Arr, Off: r.View.Off.Add(r.View.Len), Cap: r.View.Cap.Sub(r.View.Len)}
			r.VR = Lin{}
			r.Flag, r.Drained = false, false
		} else {
			r = clearRing(r)
		}
		st.Heap[cell] = r
		return one(st)
	}
	op("Reset", reset)
	op("RetrieveAll", reset)
	op("Retrieve", func(c *Call, st *State, cell string, r RingV) []Out {
		k := w.E.Lin(c.Args[1])
		n := w.ringLen(r)
		var outs []Out
		// k <= 0: nothing
		branch := func(t *State, cond Cond, f func(t *State)) *State {
			switch t.Decide(cond) {
			case 1:
				f(t)
				return nil
			case 0:
				return t
			}
			u := t.Clone()
			if u.Assume(cond) {
				f(u)
			}
			if !t.Assume(cond.Not()) {
				return nil
			}
			return t
		}
		if r.Flag {
			return one(st)
		}
		t := branch(st, LE(k, Lin{}), func(t *State) { outs = append(outs, Out{St: t}) })
		if t != nil {
			t = branch(t, LE(n, k), func(t *State) {
				outs = append(outs, reset(c, t, cell, r)...)
			})
		}
		if t != nil {
			if r.Mode == 'v' {
				q := w.drop(t, r, k)
				q.VR, q.Flag, q.Drained = Lin{}, false, false
				t.Heap[cell] = q
				outs = append(outs, Out{St: t})
			} else {
				w.cut(t, r.S, k, func(u *State, head, tail []Seg) {
					q := w.drop(u, r, k)
					q.S = tail
					q.VR, q.Flag, q.Drained = Lin{}, false, false
					u.Heap[cell] = q
					outs = append(outs, Out{St: u})
				})
			}
		}
		return outs
	})
	op("PeekAll", func(c *Call, st *State, cell string, r RingV) []Out {
		var outs []Out
		if r.Flag {
			return one(st, SliceV{}, SliceV{})
		}
		forkEmpty(st, w.ringLen(r), func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{SliceV{}, SliceV{}}})
		}, func(t *State) {
			if r.Mode == 'v' {
				outs = append(outs, Out{St: t, Res: []Val{r.View, SliceV{}}})
				return
			}
			w.layout(t, cell, r, c.Site, func(u *State, r RingV) {
				if r.Wrap == 'w' {
					ss := r.S
					w.cut(u, ss, r.Split, func(x *State, head, tail []Seg) {
						a := w.sliceOf(x, c.Site+".first", head)
						b := w.sliceOf(x, c.Site+".end", tail)
						outs = append(outs, Out{St: x, Res: []Val{a, b}})
					})
					return
				}
				a := w.sliceOf(u, c.Site+".first", r.S)
				outs = append(outs, Out{St: u, Res: []Val{a, SliceV{}}})
			})
		})
		return outs
	})
	op("Bytes", func(c *Call, st *State, cell string, r RingV) []Out {
		var outs []Out
		if r.Flag {
			return one(st, SliceV{})
		}
		forkEmpty(st, w.ringLen(r), func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{SliceV{}}})
		}, func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{w.sliceOf(t, c.Site+".bytes", w.RingSegs(t, r))}})
		})
		return outs
	})
	write := func(c *Call, st *State, cell string, r RingV) []Out {
		var src []Seg
		switch v := c.Args[1].(type) {
		case SliceV:
			src = w.E.ReadSlice(st, v)
		case StrV:
			src = v.S
		case NilV:
		default:
			panic(Undecided{"ring write of an unknown value"})
		}
		n := SegsLen(src)
		var outs []Out
		forkEmpty(st, n, func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{num(0), NilV{}}})
		}, func(t *State) {
			if w.E.OnAccess != nil {
				w.E.OnAccess(t, cell, true, c.Instr)
			}
			q := r
			if q.Mode == 'v' {
				// a view grows into memory of its own
				q.S = w.RingSegs(t, r)
				q.Mode = 'o'
				q.View = SliceV{}
			}
			q.S = NormSegs(t, append(append([]Seg(nil), q.S...), src...))
			q.Flag, q.Drained = false, false
			q.Wrap = 0
			q.Split = Lin{}
			t.Heap[cell] = q
			outs = append(outs, Out{St: t, Res: []Val{IntV{n}, NilV{}}})
		})
		return outs
	}
	op("Write", write)
	op("WriteString", write)
	op("WriteByte", func(c *Call, st *State, cell string, r RingV) []Out {
		if r.Mode == 'v' {
			r.S = w.RingSegs(st, r)
			r.Mode = 'o'
			r.View = SliceV{}
		}
		r.S = append(append([]Seg(nil), r.S...), Seg{V: c.Args[1], Hi: C(1)})
		r.Flag, r.Drained, r.Wrap = false, false, 0
		st.Heap[cell] = r
		return one(st, NilV{})
	})
	// readInto copies min(len(p), avail) elements starting at offset off.
	readInto := func(c *Call, t *State, r RingV, off Lin, avail Lin, k func(u *State, n Lin)) {
		dst, ok := c.Args[1].(SliceV)
		if !ok {
			panic(Undecided{"read into an unknown slice"})
		}
		full := LE(dst.Len, avail)
		do := func(u *State, n Lin) {
			src := w.E.SubSegs(u, w.RingSegs(u, r), off, off.Add(n))
			w.E.WriteSlice(u, SliceV{Arr: dst.Arr, Off: dst.Off, Len: n, Cap: dst.Cap}, src)
			k(u, n)
		}
		switch t.Decide(full) {
		case 1:
			do(t, dst.Len)
		case 0:
			do(t, avail)
		default:
			u := t.Clone()
			if u.Assume(full) {
				do(u, dst.Len)
			}
			if t.Assume(full.Not()) {
				do(t, avail)
			}
		}
	}
	empty := OpqV{N: "err:ringbuffer.ErrIsEmpty"}
	op("Read", func(c *Call, st *State, cell string, r RingV) []Out {
		dst, ok := c.Args[1].(SliceV)
		if !ok {
			panic(Undecided{"read into an unknown slice"})
		}
		var outs []Out
		forkEmpty(st, dst.Len, func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{num(0), NilV{}}})
		}, func(t *State) {
			if r.Flag {
				outs = append(outs, Out{St: t, Res: []Val{num(0), empty}})
				return
			}
			forkEmpty(t, w.ringLen(r), func(u *State) {
				outs = append(outs, Out{St: u, Res: []Val{num(0), empty}})
			}, func(u *State) {
				readInto(c, u, r, Lin{}, w.ringLen(r), func(x *State, n Lin) {
					q := w.drop(x, r, n)
					q.VR, q.Drained = Lin{}, false
					x.Heap[cell] = q
					outs = append(outs, Out{St: x, Res: []Val{IntV{n}, NilV{}}})
				})
			})
		})
		return outs
	})
	op("ReadByte", func(c *Call, st *State, cell string, r RingV) []Out {
		var outs []Out
		if r.Flag {
			return one(st, num(0), empty)
		}
		forkEmpty(st, w.ringLen(r), func(u *State) {
			outs = append(outs, Out{St: u, Res: []Val{num(0), empty}})
		}, func(u *State) {
			b := w.E.ElemOf(u, w.RingSegs(u, r), Lin{}, byteType)
			q := w.drop(u, r, C(1))
			q.VR, q.Drained = Lin{}, false
			u.Heap[cell] = q
			outs = append(outs, Out{St: u, Res: []Val{b, NilV{}}})
		})
		return outs
	})
	peek := func(name string, width int64) {
		op(name, func(c *Call, st *State, cell string, r RingV) []Out {
			var outs []Out
			cond := GE(w.ringLen(r).AddC(-width))
			if r.Flag {
				// Length is still the real one, Peek returns nothing
				w.Fail(st, "C26", "peek-empty", w.Where(c.Instr), "read of a buffer that a virtual read marked as empty")
				return nil
			}
			do := func(t *State) {
				w.bigEndian(t, w.E.SubSegs(t, w.RingSegs(t, r), Lin{}, C(width)), width, func(u *State, v Val) {
					outs = append(outs, Out{St: u, Res: []Val{v}})
				})
			}
			switch st.Decide(cond) {
			case 1:
				do(st)
			case 0:
				outs = append(outs, Out{St: st, Res: []Val{num(0)}})
			default:
				t := st.Clone()
				if t.Assume(cond.Not()) {
					outs = append(outs, Out{St: t, Res: []Val{num(0)}})
				}
				if st.Assume(cond) {
					do(st)
				}
			}
			return outs
		})
	}
	peek("PeekUint8", 1)
	peek("PeekUint16", 2)
	peek("PeekUint32", 4)
	peek("PeekUint64", 8)
	op("Peek", func(c *Call, st *State, cell string, r RingV) []Out {
		k := w.E.Lin(c.Args[1])
		n := w.ringLen(r)
		var outs []Out
		if r.Flag {
			return one(st, SliceV{}, SliceV{})
		}
		emit := func(t *State, m Lin) {
			if r.Mode == 'v' {
				v := r.View
				outs = append(outs, Out{St: t, Res: []Val{SliceV{Arr: v.Arr, Off: v.Off, Len: m, Cap: v.Cap}, SliceV{}}})
				return
			}
			w.layout(t, cell, r, c.Site, func(u *State, r RingV) {
				w.cut(u, r.S, m, func(u *State, head, _ []Seg) {
					if r.Wrap == 'w' && u.Decide(LE(m, r.Split)) != 1 {
						x := u.Clone()
						if x.Assume(LE(m, r.Split)) {
							outs = append(outs, Out{St: x, Res: []Val{w.sliceOf(x, c.Site+".first", head), SliceV{}}})
						}
						if u.Assume(LE(m, r.Split).Not()) {
							w.cut(u, head, r.Split, func(y *State, a, b []Seg) {
								outs = append(outs, Out{St: y, Res: []Val{w.sliceOf(y, c.Site+".first", a), w.sliceOf(y, c.Site+".end", b)}})
							})
						}
						return
					}
					outs = append(outs, Out{St: u, Res: []Val{w.sliceOf(u, c.Site+".first", head), SliceV{}}})
				})
			})
		}
		forkEmpty(st, n, func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{SliceV{}, SliceV{}}})
		}, func(t *State) {
			none := LE(k, Lin{})
			if t.Decide(none) != 0 {
				x := t.Clone()
				if x.Assume(none) {
					outs = append(outs, Out{St: x, Res: []Val{SliceV{}, SliceV{}}})
				}
				if !t.Assume(none.Not()) {
					return
				}
			}
			c2 := LE(k, n)
			if t.Decide(c2) != 1 {
				x := t.Clone()
				if x.Assume(c2.Not()) {
					emit(x, n)
				}
				if !t.Assume(c2) {
					return
				}
			}
			emit(t, k)
		})
		return outs
	})
	// virtual reads
	op("VirtualRead", func(c *Call, st *State, cell string, r RingV) []Out {
		dst, ok := c.Args[1].(SliceV)
		if !ok {
			panic(Undecided{"read into an unknown slice"})
		}
		var outs []Out
		forkEmpty(st, dst.Len, func(t *State) {
			outs = append(outs, Out{St: t, Res: []Val{num(0), NilV{}}})
		}, func(t *State) {
			if r.Flag {
				outs = append(outs, Out{St: t, Res: []Val{num(0), empty}})
				return
			}
			forkEmpty(t, w.ringLen(r), func(u *State) {
				outs = append(outs, Out{St: u, Res: []Val{num(0), empty}})
			}, func(u *State) {
				if r.Drained {
					// reads past the end: stale bytes
					w.E.WriteSlice(u, dst, []Seg{{Tok: "?", Hi: dst.Len}})
					outs = append(outs, Out{St: u, Res: []Val{IntV{dst.Len}, NilV{}}})
					return
				}
				readInto(c, u, r, r.VR, w.ringLen(r).Sub(r.VR), func(x *State, n Lin) {
					q := r
					q.VR = r.VR.Add(n)
					fin := EQ(w.ringLen(r).Sub(q.VR), Lin{})
					end := func(y *State) {
						w.layout(y, cell, q, c.Site, func(z *State, q RingV) {
							if q.Mode == 'o' && q.Wrap == 'l' {
								// the library marks the ring as empty; data that
								// ends at the end of the memory is drained like
								// a view
								zz := z.Clone()
								q2 := q
								q2.Drained = true
								zz.Heap[cell] = q2
								outs = append(outs, Out{St: zz, Res: []Val{IntV{n}, NilV{}}})
								q.Flag = true
							}
							q.Drained = true
							z.Heap[cell] = q
							outs = append(outs, Out{St: z, Res: []Val{IntV{n}, NilV{}}})
						})
					}
					not := func(y *State) {
						y.Heap[cell] = q
						outs = append(outs, Out{St: y, Res: []Val{IntV{n}, NilV{}}})
					}
					switch x.Decide(fin) {
					case 1:
						end(x)
					case 0:
						not(x)
					default:
						y := x.Clone()
						if y.Assume(fin) {
							end(y)
						}
						if x.Assume(fin.Not()) {
							not(x)
						}
					}
				})
			})
		})
		return outs
	})
	op("VirtualLength", func(c *Call, st *State, cell string, r RingV) []Out {
		if r.Drained {
			if r.Flag {
				return one(st, num(0))
			}
			n := At("nn(" + st.Fresh(c.Site+".vlen") + ")")
			st.Assume(LE(w.ringLen(r), n))
			return one(st, IntV{n})
		}
		return one(st, IntV{w.ringLen(r).Sub(r.VR)})
	})
	op("VirtualFlush", func(c *Call, st *State, cell string, r RingV) []Out {
		q := w.drop(st, r, r.VR)
		q.VR = Lin{}
		q.Flag, q.Drained = false, false
		st.Heap[cell] = q
		return one(st)
	})
	op("VirtualRevert", func(c *Call, st *State, cell string, r RingV) []Out {
		r.VR = Lin{}
		r.Drained = false
		// the empty mark of a virtual read to the end stays
		st.Heap[cell] = r
		return one(st)
	})
}

// bigEndian reads an unsigned big-endian integer. An integer of 64 bits whose
// top bit is set is kept as the negative number with the same bits.
func (w *World) bigEndian(st *State, ss []Seg, width int64, k func(t *State, v Val)) {
	if width == 1 {
		k(st, w.E.ElemOf(st, ss, Lin{}, byteType))
		return
	}
	ss = NormSegs(st, ss)
	if len(ss) == 1 && ss[0].Tok == "be" {
		if tv, ok := ss[0].V.(TupV); ok && ss[0].Lo.IsC() && ss[0].Lo.C == 0 {
			if wd, ok := tv.V[1].(IntV); ok && wd.L.IsC() && wd.L.C == width {
				k(st, tv.V[0])
				return
			}
		}
	}
	if len(ss) == 1 && ss[0].Tok != "" && ss[0].Tok != "0" && ss[0].Tok != "?" && ss[0].Tok != "be" && ss[0].Tok[0] != '"' {
		in := ss[0].Tok + "@" + ss[0].Lo.String()
		switch width {
		case 2:
			k(st, IntV{At("be2(" + in + ")")})
		case 4:
			k(st, IntV{At("be4(" + in + ")")})
		case 8:
			top := Atom("b(" + in + ")#7")
			huge := func(t *State) {
				n := At("i(huge(" + in + "))")
				if t.Assume(GE(n.Neg().AddC(-1))) {
					k(t, IntV{n})
				}
			}
			switch st.Decide(top) {
			case 1:
				huge(st)
			case 0:
				k(st, IntV{At("nn(be8(" + in + "))")})
			default:
				t := st.Clone()
				if t.Assume(top) {
					huge(t)
				}
				if st.Assume(top.Not()) {
					k(st, IntV{At("nn(be8(" + in + "))")})
				}
			}
		}
		return
	}
	// byte by byte
	b := BVV{B: make([]Bit, 8*width)}
	for i := int64(0); i < width; i++ {
		v, ok := w.E.Bits(w.E.ElemOf(st, ss, C(i), byteType), 8)
		if !ok {
			k(st, w.E.Opaque(st, "be", uint64Type))
			return
		}
		copy(b.B[8*(width-1-i):], v.B)
	}
	k(st, MkInt(b))
}
