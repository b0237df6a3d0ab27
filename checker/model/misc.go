package model

import (
	"go/types"
	"strings"

	. "gevcheck/absint"

	"golang.org/x/tools/go/ssa"
)

const wheel = "github.com/RussellLuo/timingwheel"

// timeV is a point in time: nanoseconds.
func timeV(ns Lin) Val { return TupV{V: []Val{IntV{ns}}} }

func (w *World) ns(v Val) Lin {
	if t, ok := v.(TupV); ok && len(t.V) == 1 {
		return w.E.Lin(t.V[0])
	}
	return At("i(ns(" + Key(v) + "))")
}

func (w *World) timeModels() {
	in := w.E.Intr
	in["time.Now"] = func(c *Call) []Out {
		n := At("pos(" + c.St.Fresh(c.Site+".now") + ")")
		if p, ok := c.St.G["now"].(IntV); ok {
			c.St.Assume(LE(p.L, n))
		}
		c.St.G["now"] = IntV{n}
		return one(c.St, timeV(n))
	}
	in["time.Unix"] = func(c *Call) []Out {
		return one(c.St, timeV(w.E.Lin(c.Args[0]).Mul(1000000000).Add(w.E.Lin(c.Args[1]))))
	}
	in["time.UnixMilli"] = func(c *Call) []Out { return one(c.St, timeV(w.E.Lin(c.Args[0]).Mul(1000000))) }
	in["time.UnixMicro"] = func(c *Call) []Out { return one(c.St, timeV(w.E.Lin(c.Args[0]).Mul(1000))) }
	div := func(d int64) Intrinsic {
		return func(c *Call) []Out {
			v := w.E.Quo(c.St, w.ns(c.Args[0]), d)
			return one(c.St, IntV{v})
		}
	}
	in["(time.Time).UnixNano"] = func(c *Call) []Out { return one(c.St, IntV{w.ns(c.Args[0])}) }
	in["(time.Time).Unix"] = div(1000000000)
	in["(time.Time).UnixMilli"] = div(1000000)
	in["(time.Time).UnixMicro"] = div(1000)
	in["(time.Duration).Nanoseconds"] = func(c *Call) []Out { return one(c.St, IntV{w.E.Lin(c.Args[0])}) }
	in["(time.Duration).Milliseconds"] = func(c *Call) []Out {
		return one(c.St, IntV{w.E.Quo(c.St, w.E.Lin(c.Args[0]), 1000000)})
	}
	in["(time.Time).Sub"] = func(c *Call) []Out {
		return one(c.St, IntV{w.ns(c.Args[0]).Sub(w.ns(c.Args[1]))})
	}
	in["(time.Time).Add"] = func(c *Call) []Out {
		return one(c.St, timeV(w.ns(c.Args[0]).Add(w.E.Lin(c.Args[1]))))
	}
	in["(time.Time).After"] = func(c *Call) []Out {
		return one(c.St, BoolV{LT(w.ns(c.Args[1]), w.ns(c.Args[0]))})
	}
	in["(time.Time).Before"] = func(c *Call) []Out {
		return one(c.St, BoolV{LT(w.ns(c.Args[0]), w.ns(c.Args[1]))})
	}
	in["(time.Time).Equal"] = func(c *Call) []Out {
		return one(c.St, BoolV{EQ(w.ns(c.Args[0]), w.ns(c.Args[1]))})
	}
	since := func(sign int64) Intrinsic {
		return func(c *Call) []Out {
			o := in["time.Now"](&Call{E: c.E, St: c.St, Instr: c.Instr, Site: c.Site})
			return one(c.St, IntV{w.ns(o[0].Res[0]).Sub(w.ns(c.Args[0])).Mul(sign)})
		}
	}
	in["time.Since"] = since(1)
	in["time.Until"] = since(-1)
	// timers of the wheel
	timer := func(c *Call) []Out {
		st := c.St
		cell := "new:" + st.Fresh(c.Site+".timer")
		var d, f Val
		if strings.HasSuffix(c.Name, "ScheduleFunc") {
			d, f = c.Args[1], c.Args[2]
		} else {
			d, f = c.Args[1], c.Args[2]
		}
		// pointer, delay, function, state
		gPush(st, "timers", TupV{V: []Val{PtrV{cell}, d, f, num(1), c.Args[0]}})
		st.Note("%s: timer armed for %s", w.E.Pos(c.Instr), Key(d))
		return one(st, PtrV{cell})
	}
	in["(*"+wheel+".TimingWheel).AfterFunc"] = timer
	in["(*"+wheel+".TimingWheel).ScheduleFunc"] = timer
	in["(*"+wheel+".Timer).Stop"] = func(c *Call) []Out {
		st := c.St
		p, ok := c.Args[0].(PtrV)
		if !ok || p.Cell == "" {
			w.Fail(st, "C32", "nil-dereference", w.Where(c.Instr), "Stop of a nil timer")
			return nil
		}
		var l []Val
		for _, t := range gList(st, "timers") {
			tv := t.(TupV)
			if q, ok := tv.V[0].(PtrV); ok && q.Cell == p.Cell {
				tv = TupV{V: append([]Val(nil), tv.V...)}
				tv.V[3] = num(2)
			}
			l = append(l, tv)
		}
		if l != nil {
			st.G["timers"] = ListV{V: l}
		}
		return one(st, w.E.Opaque(st, c.Site+".stopped", types.Typ[types.Bool]))
	}
	in[wheel+".NewTimingWheel"] = func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".wheel")
		c.St.G["wheel"] = TupV{V: []Val{PtrV{cell}, c.Args[0], c.Args[1]}}
		return one(c.St, PtrV{cell})
	}
	in["(*"+wheel+".TimingWheel).Start"] = func(c *Call) []Out {
		gSet(c.St, "wheelrun", 1)
		gPush(c.St, "order", StrV{S: []Seg{{Tok: "\"wheel.Start", Hi: C(11)}}})
		return one(c.St)
	}
	in["(*"+wheel+".TimingWheel).Stop"] = func(c *Call) []Out {
		gSet(c.St, "wheelrun", 2)
		return one(c.St)
	}
}

func (w *World) dataModels() {
	in := w.E.Intr
	put := func(width int64) Intrinsic {
		return func(c *Call) []Out {
			sl, ok := c.Args[1].(SliceV)
			if !ok {
				panic(Undecided{"PutUint into an unknown slice"})
			}
			enough := c.St.EntailsGE(sl.Len.AddC(-width))
			if w.E.OnBounds != nil {
				w.E.OnBounds(c.St, "binary", enough, c.Instr)
			}
			if !enough && !c.St.Assume(GE(sl.Len.AddC(-width))) {
				return nil
			}
			v := w.beSeg(c.St, c.Args[2], width)
			w.E.WriteSlice(c.St, sl, v)
			return one(c.St)
		}
	}
	get := func(width int64) Intrinsic {
		return func(c *Call) []Out {
			sl, ok := c.Args[1].(SliceV)
			if !ok {
				panic(Undecided{"Uint of an unknown slice"})
			}
			enough := c.St.EntailsGE(sl.Len.AddC(-width))
			if w.E.OnBounds != nil {
				w.E.OnBounds(c.St, "binary", enough, c.Instr)
			}
			if !enough && !c.St.Assume(GE(sl.Len.AddC(-width))) {
				return nil
			}
			ss := w.E.SubSegs(c.St, w.E.ReadSlice(c.St, sl), Lin{}, C(width))
			var outs []Out
			w.bigEndian(c.St, ss, width, func(t *State, v Val) { outs = append(outs, Out{St: t, Res: []Val{v}}) })
			return outs
		}
	}
	for n, wd := range map[string]int64{"16": 2, "32": 4, "64": 8} {
		wd := wd
		in["(encoding/binary.bigEndian).PutUint"+n] = put(wd)
		in["(encoding/binary.bigEndian).Uint"+n] = get(wd)
		in["(encoding/binary.bigEndian).AppendUint"+n] = func(c *Call) []Out {
			return w.E.AppendSegs(c, c.Args[1], w.beSeg(c.St, c.Args[2], wd), byteType)
		}
	}
	in["unicode/utf8.ValidString"] = func(c *Call) []Out {
		sv, ok := c.Args[0].(StrV)
		if !ok {
			return nilOuts(c, w)
		}
		return one(c.St, BoolV{w.Utf8(c.St, sv.S)})
	}
	in["unicode/utf8.Valid"] = func(c *Call) []Out {
		sl, ok := c.Args[0].(SliceV)
		if !ok {
			return nilOuts(c, w)
		}
		return one(c.St, BoolV{w.Utf8(c.St, w.E.ReadSlice(c.St, sl))})
	}
	in["errors.New"] = func(c *Call) []Out {
		n := "err:" + c.Site
		if s, ok := ConstString(c.Args[0]); ok {
			n += ":" + s
		}
		return one(c.St, OpqV{N: n, T: c.Sig.Results().At(0).Type()})
	}
	in["fmt.Errorf"] = in["errors.New"]
	in["errors.Is"] = func(c *Call) []Out {
		return one(c.St, BoolV{w.E.Equal(c.St, c.Args[0], c.Args[1], c.Sig.Params().At(0).Type())})
	}
	pb := "github.com/gobwas/pool/pbytes"
	getb := func(c *Call) []Out {
		st := c.St
		cell := "new:" + st.Fresh(c.Site+".pooled")
		l := w.E.Lin(c.Args[0])
		cp := l
		if len(c.Args) > 1 {
			cp = w.E.Lin(c.Args[1])
		}
		if !st.EntailsGE(l) {
			if w.E.OnBounds != nil {
				w.E.OnBounds(st, "make", false, c.Instr)
			}
			if !st.Assume(GE(l)) {
				return nil
			}
		}
		if strings.HasSuffix(c.Name, "GetCap") {
			l = Lin{}
		}
		gPush(st, "pooled", PtrV{cell})
		a := ArrV{Len: cp, Elem: byteType}
		st.Heap[cell] = a.Write(st, Lin{}, cp, []Seg{{Tok: "?", Hi: cp}})
		return one(st, SliceV{Arr: cell, Len: l, Cap: cp})
	}
	for _, n := range []string{"Get", "GetCap", "GetLen"} {
		in[pb+"."+n] = getb
	}
	in[pb+".Put"] = func(c *Call) []Out {
		st := c.St
		sl, ok := c.Args[0].(SliceV)
		if ok && sl.Arr != "" {
			if a, ok := st.Heap[sl.Arr].(ArrV); ok {
				st.Heap[sl.Arr] = ArrV{Len: a.Len, Elem: a.Elem, P: []Piece{{Hi: a.Len, S: Seg{Tok: "?", Hi: a.Len}}}}
			}
			k := "bput:" + sl.Arr
			w.Check(st, gInt(st, k) == 0, "C32", "released-once", w.Where(c.Instr), "a pooled byte slice is returned twice")
			gSet(st, k, 1)
		}
		return one(st)
	}
	cv := "github.com/Allenxuxu/toolkit/convert"
	in[cv+".BytesToString"] = func(c *Call) []Out {
		sl, ok := c.Args[0].(SliceV)
		if !ok {
			return nilOuts(c, w)
		}
		r := StrV{S: w.E.ReadSlice(c.St, sl)}
		if sl.Arr != "" {
			r.From = sl
		}
		return one(c.St, r)
	}
	in[cv+".StringToBytes"] = func(c *Call) []Out {
		sv, ok := c.Args[0].(StrV)
		if !ok {
			return nilOuts(c, w)
		}
		return one(c.St, w.sliceOf(c.St, c.Site+".bytes", sv.S))
	}
	// the log does not take part in any property
	for _, p := range w.E.Pkgs {
		if p == nil || p.Pkg.Path() != Gev+"/log" {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && f.Name() != "init" {
				in[f.String()] = func(c *Call) []Out { return nilOuts(c, w) }
			}
		}
	}
	for _, f := range []string{"Print", "Println", "Printf"} {
		in["log."+f] = func(c *Call) []Out { return one(c.St) }
		in["fmt."+f] = func(c *Call) []Out { return one(c.St, num(0), NilV{}) }
	}
}

// Utf8 is the condition that a text is valid UTF-8.
func (w *World) Utf8(st *State, ss []Seg) Cond {
	ss = NormSegs(st, ss)
	if len(ss) == 0 {
		return True()
	}
	return Atom("utf8(" + Key(SegsV{S: ss}) + ")")
}

// beSeg is the big-endian text of v.
func (w *World) beSeg(st *State, v Val, width int64) []Seg {
	if iv, ok := v.(IntV); ok && iv.L.IsC() {
		var r []Seg
		for i := width - 1; i >= 0; i-- {
			r = append(r, Seg{V: num(iv.L.C >> uint(8*i) & 255), Hi: C(1)})
		}
		return r
	}
	return []Seg{{Tok: "be", V: TupV{V: []Val{v, num(width)}}, Hi: C(width)}}
}

func (w *World) install() {
	w.ringModels()
	w.sysModels()
	w.netModels()
	w.syncModels()
	w.timeModels()
	w.dataModels()
	w.textModels()
	w.E.OpaqueFn = func(c *Call) []Out {
		if w.User == nil {
			return nil
		}
		kind := c.Name
		if c.Com != nil && c.Com.IsInvoke() {
			kind = c.Com.Method.Name()
		} else if o, ok := c.Fn.(OpqV); ok {
			// a function of a named type stays one when it is passed on as
			// a plain func
			if n, ok := o.T.(*types.Named); ok {
				kind = n.String()
			}
		}
		return w.User(c, kind)
	}
}
