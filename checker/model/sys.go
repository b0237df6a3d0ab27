package model

import (
	"go/types"
	"strings"

	. "gevcheck/absint"
)

var byteType = types.Typ[types.Byte]
var uint64Type = types.Typ[types.Uint64]

const unix = "golang.org/x/sys/unix"

// fdKey names the monitor entry of a descriptor.
func fdKey(l Lin) string { return "fd:" + l.String() }

const (
	fdOpen   = 1
	fdClosed = 2
)

// useFd checks a descriptor that is about to be used.
func (w *World) useFd(c *Call, l Lin, what string) bool {
	if w.FdHook != nil && w.isConn(c.St, l) {
		w.FdHook(c, what)
	}
	switch gInt(c.St, fdKey(l)) {
	case fdClosed:
		w.Check(c.St, false, "C06", "use-after-close", w.Where(c.Instr), "%s on a descriptor that was closed", what)
		return false
	case fdOpen:
		w.Count("C06", "use-after-close")
	}
	return true
}

func (w *World) isConn(st *State, l Lin) bool { return gInt(st, "conn:"+l.String()) == 1 }

func (w *World) sysModels() {
	in := w.E.Intr
	fail := func(c *Call, st *State) Val { return w.otherErr(st, c.Site) }

	in[unix+".Accept"] = func(c *Call) []Out {
		st := c.St
		lfd := w.E.Lin(c.Args[0])
		w.useFd(c, lfd, "accept")
		sa := func(t *State, ok bool) Val {
			if !ok {
				return NilV{}
			}
			sat := w.Type(unix, "SockaddrInet4")
			return IfaceV{T: types.NewPointer(sat), V: PtrV{"sym:" + t.Fresh(c.Site+".sa")}}
		}
		a, b, d := st.Clone(), st.Clone(), st.Clone()
		many := len(gList(st, "accepted")) >= 2 // the queue is empty after two
		fd := At("nn(" + st.Fresh(c.Site+".nfd") + ")")
		gSet(st, fdKey(fd), fdOpen)
		gSet(st, "conn:"+fd.String(), 1)
		st.G["accepted"] = ListV{V: append(append([]Val(nil), gList(st, "accepted")...), IntV{fd})}
		st.Note("%s: accept gives a connection", w.E.Pos(c.Instr))
		a.Note("%s: accept: EAGAIN", w.E.Pos(c.Instr))
		b.Note("%s: accept fails", w.E.Pos(c.Instr))
		d.Note("%s: accept: EINTR", w.E.Pos(c.Instr))
		outs := []Out{
			{St: a, Res: []Val{num(-1), NilV{}, w.errnoV(eAGAIN)}},
			{St: b, Res: []Val{num(-1), NilV{}, fail(c, b)}},
			{St: d, Res: []Val{num(-1), NilV{}, w.errnoV(eINTR)}},
		}
		if !many {
			a := sa(st, true)
			st.G["sa:"+fd.String()] = a
			outs = append(outs, Out{St: st, Res: []Val{IntV{fd}, a, NilV{}}})
		}
		return outs
	}
	in[unix+".Accept4"] = func(c *Call) []Out {
		outs := in[unix+".Accept"](c)
		fl := w.E.Lin(c.Args[1])
		for _, o := range outs {
			if iv, ok := o.Res[0].(IntV); ok && !iv.L.IsC() && fl.IsC() && fl.C&0x800 != 0 {
				gSet(o.St, "nonblock:"+iv.L.String(), 1)
			}
		}
		return outs
	}
	in[unix+".SetNonblock"] = func(c *Call) []Out {
		st := c.St
		fd := w.E.Lin(c.Args[0])
		w.useFd(c, fd, "SetNonblock")
		t := st.Clone()
		if fd.IsC() && fd.C < 0 {
			return one(st, w.errnoV(9))
		}
		if bv, ok := c.Args[1].(BoolV); ok && st.Decide(bv.C) == 1 {
			gSet(st, "nonblock:"+fd.String(), 1)
		} else {
			gSet(st, "nonblock:"+fd.String(), 0)
		}
		t.Note("%s: SetNonblock fails", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{NilV{}}}, {St: t, Res: []Val{fail(c, t)}}}
	}
	in["syscall.SetNonblock"] = in[unix+".SetNonblock"]
	in[unix+".Close"] = func(c *Call) []Out {
		st := c.St
		fd := w.E.Lin(c.Args[0])
		k := fdKey(fd)
		if gInt(st, k) == fdClosed {
			w.Check(st, false, "C05,C06", "released-once", w.Where(c.Instr), "a descriptor is closed twice")
			return one(st, w.errnoV(9))
		}
		if w.isConn(st, fd) {
			if w.FdHook != nil {
				w.FdHook(c, "close")
			}
			w.Count("C05,C06", "released-once")
		}
		gSet(st, k, fdClosed)
		delete(st.G, "int:"+fd.String())
		st.Note("%s: close(fd)", w.E.Pos(c.Instr))
		t := st.Clone()
		t.Note("%s: close reports an error", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{NilV{}}}, {St: t, Res: []Val{fail(c, t)}}}
	}
	in[unix+".Shutdown"] = func(c *Call) []Out {
		st := c.St
		fd := w.E.Lin(c.Args[0])
		w.useFd(c, fd, "shutdown")
		how := w.E.Lin(c.Args[1])
		if how.IsC() {
			gSet(st, "shut", how.C+1)
		} else {
			gSet(st, "shut", 99)
		}
		t := st.Clone()
		return []Out{{St: st, Res: []Val{NilV{}}}, {St: t, Res: []Val{fail(c, t)}}}
	}
	in[unix+".EpollCreate1"] = func(c *Call) []Out {
		st := c.St
		t := st.Clone()
		fd := At("nn(" + st.Fresh(c.Site+".epfd") + ")")
		gSet(st, fdKey(fd), fdOpen)
		gPush(st, "fds", IntV{fd})
		t.Note("%s: epoll_create fails", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{IntV{fd}, NilV{}}}, {St: t, Res: []Val{num(-1), fail(c, t)}}}
	}
	in[unix+".Syscall"] = func(c *Call) []Out {
		st := c.St
		n := w.E.Lin(c.Args[0])
		if !n.IsC() || n.C != 290 {
			return nilOuts(c, w)
		}
		t := st.Clone()
		fd := At("nn(" + st.Fresh(c.Site+".evfd") + ")")
		gSet(st, fdKey(fd), fdOpen)
		gSet(st, "eventfd:"+fd.String(), 1)
		gPush(st, "fds", IntV{fd})
		en := w.otherErr(t, c.Site).(IfaceV).V
		t.Note("%s: eventfd fails", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{IntV{fd}, num(0), num(0)}}, {St: t, Res: []Val{num(-1), num(0), en}}}
	}
	in[unix+".Eventfd"] = func(c *Call) []Out {
		st := c.St
		t := st.Clone()
		fd := At("nn(" + st.Fresh(c.Site+".evfd") + ")")
		gSet(st, fdKey(fd), fdOpen)
		gSet(st, "eventfd:"+fd.String(), 1)
		gPush(st, "fds", IntV{fd})
		return []Out{{St: st, Res: []Val{IntV{fd}, NilV{}}}, {St: t, Res: []Val{num(-1), fail(c, t)}}}
	}
	in[unix+".EpollCtl"] = func(c *Call) []Out {
		st := c.St
		op, fd := w.E.Lin(c.Args[1]), w.E.Lin(c.Args[2])
		if !op.IsC() {
			panic(Undecided{"epoll_ctl with unknown operation"})
		}
		w.useFd(c, fd, "epoll_ctl")
		k := "int:" + fd.String()
		var ev Val = num(0)
		if op.C != 2 {
			p, ok := c.Args[3].(PtrV)
			if !ok || p.Cell == "" {
				w.Fail(st, "C15", "registration", w.Where(c.Instr), "epoll_ctl without an event")
				return nil
			}
			v, _ := w.E.Load(st, PtrV{p.Cell + "/Events"}, types.Typ[types.Uint32], c.Instr)
			ev = v
			u, _ := w.E.Load(st, PtrV{p.Cell + "/Fd"}, types.Typ[types.Int32], c.Instr)
			w.Check(st, st.EntailsEQ(w.E.Lin(u).Sub(fd)), "C15", "event-identity", w.Where(c.Instr), "the registered event does not carry the registered descriptor")
		}
		name := map[int64]string{1: "ADD", 2: "DEL", 3: "MOD"}[op.C]
		var outs []Out
		if op.C == 1 || w.CtlFails {
			t := st.Clone()
			t.Note("%s: epoll_ctl %s fails", w.E.Pos(c.Instr), name)
			if op.C == 3 {
				gSet(t, "excused", 1)
			}
			if op.C == 1 {
				gSet(t, "addfailed", 1)
			}
			if op.C == 2 {
				gSet(t, "delfailed", 1)
			}
			outs = append(outs, Out{St: t, Res: []Val{fail(c, t)}})
		}
		if op.C == 2 {
			delete(st.G, k)
		} else {
			if op.C == 3 {
				_, reg := st.G[k]
				if gInt(st, fdKey(fd)) == fdOpen && w.isConn(st, fd) {
					w.Check(st, reg, "C02", "registered", w.Where(c.Instr), "the interest of a descriptor is changed that is not registered")
				}
			}
			st.G[k] = ev
		}
		st.Note("%s: epoll_ctl %s %s", w.E.Pos(c.Instr), name, Key(ev))
		outs = append(outs, Out{St: st, Res: []Val{NilV{}}})
		return outs
	}
	in[unix+".Write"] = func(c *Call) []Out {
		st := c.St
		fd := w.E.Lin(c.Args[0])
		if !w.useFd(c, fd, "write") {
			return one(st, num(-1), w.errnoV(9))
		}
		data, ok := c.Args[1].(SliceV)
		if !ok {
			panic(Undecided{"write of an unknown slice"})
		}
		ss := w.E.ReadSlice(st, data)
		if gInt(st, "eventfd:"+fd.String()) == 1 {
			return w.wakeWrite(c, ss, data.Len)
		}
		return w.connWrite(c, fd, ss, data.Len)
	}
	in[unix+".Read"] = func(c *Call) []Out {
		st := c.St
		fd := w.E.Lin(c.Args[0])
		if !w.useFd(c, fd, "read") {
			return one(st, num(-1), w.errnoV(9))
		}
		buf, ok := c.Args[1].(SliceV)
		if !ok {
			panic(Undecided{"read into an unknown slice"})
		}
		if gInt(st, "eventfd:"+fd.String()) == 1 {
			t := st.Clone()
			if w.WakeWorks {
				w.Check(st, gInt(st, "woken") > 0, "C10", "drain-blocks", w.Where(c.Instr), "the event descriptor is read although nobody wrote to it: the loop is blocked")
				gSet(st, "woken", 0)
				w.E.WriteSlice(st, buf, []Seg{{Tok: "?", Hi: buf.Len}})
				return one(st, num(8), NilV{})
			}
			gSet(st, "drained", gInt(st, "drained")+1)
			w.E.WriteSlice(st, SliceV{Arr: buf.Arr, Off: buf.Off, Len: buf.Len, Cap: buf.Cap}, []Seg{{Tok: "?", Hi: buf.Len}})
			return []Out{{St: st, Res: []Val{num(8), NilV{}}}, {St: t, Res: []Val{num(-1), fail(c, t)}}}
		}
		if !w.isConn(st, fd) {
			return nilOuts(c, w)
		}
		var outs []Out
		eof, again, bad := st.Clone(), st.Clone(), st.Clone()
		name := st.Fresh(c.Site + ".in")
		n := At("len(" + name + ")")
		if st.Assume(GE(n.AddC(-1))) && st.Assume(LE(n, buf.Len)) {
			tok := []Seg{{Tok: name, Hi: n}}
			w.E.WriteSlice(st, buf, tok)
			st.G["in"] = SegsV{S: NormSegs(st, append(append([]Seg(nil), getSegs(st, "in")...), tok...))}
			gSet(st, "reads", 1)
			st.Note("%s: read gives n>=1 bytes", w.E.Pos(c.Instr))
			outs = append(outs, Out{St: st, Res: []Val{IntV{n}, NilV{}}})
		}
		if eof.Decide(GE(buf.Len.AddC(-1))) == 1 {
			gSet(eof, "ended", 1)
			eof.Note("%s: read gives 0 (end of stream)", w.E.Pos(c.Instr))
			outs = append(outs, Out{St: eof, Res: []Val{num(0), NilV{}}})
		} else {
			w.Fail(st, "C03", "read-buffer", w.Where(c.Instr), "read into a buffer that may be empty")
		}
		again.Note("%s: read: EAGAIN", w.E.Pos(c.Instr))
		outs = append(outs, Out{St: again, Res: []Val{num(-1), w.errnoV(eAGAIN)}})
		gSet(bad, "broken", 1)
		bad.Note("%s: read fails", w.E.Pos(c.Instr))
		outs = append(outs, Out{St: bad, Res: []Val{num(-1), fail(c, bad)}})
		return outs
	}
	in["runtime.NumCPU"] = func(c *Call) []Out {
		return one(c.St, IntV{At("pos(numcpu)")})
	}
	in["runtime.Gosched"] = func(c *Call) []Out { return one(c.St) }
}

func nilOuts(c *Call, w *World) []Out {
	var r []Val
	for i := 0; i < c.Sig.Results().Len(); i++ {
		r = append(r, c.E.Opaque(c.St, c.Site+".r", c.Sig.Results().At(i).Type()))
	}
	return []Out{{St: c.St, Res: r}}
}

// connWrite: bytes handed to the kernel must be the next unsent bytes.
func (w *World) connWrite(c *Call, fd Lin, ss []Seg, n Lin) []Out {
	st := c.St
	var outs []Out
	if !w.isConn(st, fd) {
		return nilOuts(c, w)
	}
	if gInt(st, "shut") != 0 {
		// the peer was told that nothing follows
		w.Count("C01", "shut")
	}
	uns := getSegs(st, "unsent")
	bad, again := st.Clone(), st.Clone()
	gSet(bad, "broken", 1)
	bad.Note("%s: write fails", w.E.Pos(c.Instr))
	again.Note("%s: write: EAGAIN", w.E.Pos(c.Instr))
	outs = append(outs, Out{St: bad, Res: []Val{num(-1), w.otherErr(bad, c.Site)}})
	outs = append(outs, Out{St: again, Res: []Val{num(-1), w.errnoV(eAGAIN)}})
	forkEmpty(st, n, func(t *State) {
		outs = append(outs, Out{St: t, Res: []Val{num(0), NilV{}}})
	}, func(t *State) {
		// the data must be a prefix of what is unsent
		total := SegsLen(uns)
		okLen := t.EntailsGE(total.Sub(n))
		ok := okLen && SameSegs(t, ss, w.E.SubSegs(t, uns, Lin{}, n))
		prop := "C01"
		if freshPkt(uns) && len(ss) > 0 {
			prop = "C01,C04" // replies of this event
		}
		if !w.Check(t, ok, prop, "in-order", w.Where(c.Instr), "the bytes given to the kernel [%s] are not the next unsent bytes [%s]", Key(SegsV{S: ss}), Key(SegsV{S: uns})) {
			return
		}
		part := t.Clone()
		// everything
		t.G["unsent"] = SegsV{S: w.E.SubSegs(t, uns, n, total)}
		t.Note("%s: write takes everything", w.E.Pos(c.Instr))
		outs = append(outs, Out{St: t, Res: []Val{IntV{n}, NilV{}}})
		// a part
		k := At("pos(" + part.Fresh(c.Site+".wrote") + ")")
		if part.Assume(LT(k, n)) {
			part.Note("%s: write takes a part", w.E.Pos(c.Instr))
			w.cut(part, uns, k, func(u *State, head, tail []Seg) {
				u.G["unsent"] = SegsV{S: tail}
				outs = append(outs, Out{St: u, Res: []Val{IntV{k}, NilV{}}})
			})
		}
	})
	return outs
}

// wakeWrite: eight bytes that add a non-zero value to the counter.
func (w *World) wakeWrite(c *Call, ss []Seg, n Lin) []Out {
	st := c.St
	ok := n.IsC() && n.C == 8
	if ok {
		ok = false
		for i := int64(0); i < 8; i++ {
			b := w.E.Lin(w.E.ElemOf(st, ss, C(i), byteType))
			if b.IsC() && b.C != 0 && b.C < 255 {
				ok = true
			}
		}
	}
	w.Check(st, ok, "C10", "wake-value", w.Where(c.Instr), "the wake-up does not write a non-zero 8-byte value to the event descriptor")
	t := st.Clone()
	gSet(st, "woken", gInt(st, "woken")+1)
	st.Note("%s: wake-up written", w.E.Pos(c.Instr))
	if w.WakeWorks {
		gSet(st, "woken", 1)
		return one(st, num(8), NilV{})
	}
	t.Note("%s: wake-up fails", w.E.Pos(c.Instr))
	gSet(t, "wakefailed", 1)
	return []Out{{St: st, Res: []Val{num(8), NilV{}}}, {St: t, Res: []Val{num(-1), w.otherErr(t, c.Site)}}}
}

func (w *World) netModels() {
	in := w.E.Intr
	tcp := types.NewPointer(w.typeOr("net", "TCPListener"))
	ux := types.NewPointer(w.typeOr("net", "UnixListener"))
	listen := func(c *Call) []Out {
		st := c.St
		a, b := st.Clone(), st.Clone()
		mk := func(t *State, ty types.Type) Val {
			cell := "new:" + t.Fresh(c.Site+".listener")
			gSet(t, "res:"+cell, 1)
			gPush(t, "resources", PtrV{cell})
			return IfaceV{T: ty, V: PtrV{cell}}
		}
		st.Note("%s: listening", w.E.Pos(c.Instr))
		a.Note("%s: listen fails", w.E.Pos(c.Instr))
		b.Note("%s: listener is not TCP", w.E.Pos(c.Instr))
		st.G["listen"] = TupV{V: []Val{c.Args[0], c.Args[1], c.Res0(c.Name)}}
		return []Out{
			{St: st, Res: []Val{mk(st, tcp), NilV{}}},
			{St: a, Res: []Val{NilV{}, someErr(a, c.Site)}},
			{St: b, Res: []Val{mk(b, ux), NilV{}}},
		}
	}
	in["net.Listen"] = listen
	in["github.com/libp2p/go-reuseport.Listen"] = listen
	closeRes := func(c *Call) []Out {
		st := c.St
		p, ok := c.Args[0].(PtrV)
		if !ok || p.Cell == "" {
			w.Fail(st, "C32", "nil-dereference", w.Where(c.Instr), "close of nil")
			return nil
		}
		k := "res:" + p.Cell
		gSet(st, k, 2)
		t := st.Clone()
		t.Note("%s: close reports an error", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{NilV{}}}, {St: t, Res: []Val{someErr(t, c.Site)}}}
	}
	in["(*net.TCPListener).Close"] = closeRes
	in["(*net.UnixListener).Close"] = closeRes
	in["(*os.File).Close"] = closeRes
	in["iface:net.Listener.Close"] = func(c *Call) []Out { return one(c.St, NilV{}) }
	in["(*net.TCPListener).File"] = func(c *Call) []Out {
		st := c.St
		t := st.Clone()
		cell := "new:" + st.Fresh(c.Site+".file")
		gSet(st, "res:"+cell, 1)
		gPush(st, "resources", PtrV{cell})
		t.Note("%s: File fails", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{PtrV{cell}, NilV{}}}, {St: t, Res: []Val{PtrV{}, someErr(t, c.Site)}}}
	}
	in["(*os.File).Fd"] = func(c *Call) []Out {
		p := c.Args[0].(PtrV)
		l := At("nn(fd(" + p.Cell + "))")
		if gInt(c.St, "res:"+p.Cell) == 1 {
			gSet(c.St, fdKey(l), fdOpen)
		}
		c.St.G["lfd"] = IntV{l}
		return one(c.St, IntV{l})
	}
}

func (w *World) typeOr(pkg, name string) types.Type {
	if t := w.Type(pkg, name); t != nil {
		return t
	}
	return types.Typ[types.Int]
}

// ---- atomics, locks ----

func (w *World) syncModels() {
	in := w.E.Intr
	tk := "github.com/Allenxuxu/toolkit/sync/atomic"
	// cell of the value behind an atomic object
	at := func(c *Call) string {
		p, ok := c.Args[0].(PtrV)
		if !ok || p.Cell == "" {
			w.Fail(c.St, "C32", "nil-dereference", w.Where(c.Instr), "atomic operation on nil")
			return ""
		}
		return p.Cell
	}
	note := func(c *Call, cell, op string) {
		if w.AtomicHook != nil {
			w.AtomicHook(c.St, cell, op, c)
		}
	}
	get := func(st *State, cell string, t types.Type) Val {
		if v, ok := st.Heap[cell]; ok {
			return v
		}
		v, _ := w.E.LoadRaw(st, cell, t)
		return v
	}
	obj := func(suffix string, t types.Type) func(c *Call) (string, types.Type) {
		return func(c *Call) (string, types.Type) {
			p := at(c)
			if p == "" {
				return "", t
			}
			return p + suffix, t
		}
	}
	type loc = func(c *Call) (string, types.Type)
	load := func(l loc) Intrinsic {
		return func(c *Call) []Out {
			cell, t := l(c)
			if cell == "" {
				return nil
			}
			note(c, cell, "load")
			return one(c.St, get(c.St, cell, t))
		}
	}
	store := func(l loc, swap bool) Intrinsic {
		return func(c *Call) []Out {
			cell, t := l(c)
			if cell == "" {
				return nil
			}
			note(c, cell, "store")
			old := get(c.St, cell, t)
			c.St.Heap[cell] = c.Args[1]
			if swap {
				return one(c.St, old)
			}
			return one(c.St)
		}
	}
	add := func(l loc) Intrinsic {
		return func(c *Call) []Out {
			cell, t := l(c)
			if cell == "" {
				return nil
			}
			note(c, cell, "add")
			nv := IntV{w.E.Lin(get(c.St, cell, t)).Add(w.E.Lin(c.Args[1]))}
			c.St.Heap[cell] = nv
			return one(c.St, nv)
		}
	}
	cas := func(l loc) Intrinsic {
		return func(c *Call) []Out {
			cell, t := l(c)
			if cell == "" {
				return nil
			}
			note(c, cell, "cas")
			cond := w.E.Equal(c.St, get(c.St, cell, t), c.Args[1], t)
			var outs []Out
			yes := func(s *State) {
				s.Heap[cell] = c.Args[2]
				outs = append(outs, Out{St: s, Res: []Val{boolean(true)}})
			}
			switch c.St.Decide(cond) {
			case 1:
				yes(c.St)
			case 0:
				outs = append(outs, Out{St: c.St, Res: []Val{boolean(false)}})
			default:
				t := c.St.Clone()
				if t.Assume(cond.Not()) {
					outs = append(outs, Out{St: t, Res: []Val{boolean(false)}})
				}
				if c.St.Assume(cond) {
					yes(c.St)
				}
			}
			return outs
		}
	}
	bt, i32, i64 := types.Typ[types.Bool], types.Typ[types.Int32], types.Typ[types.Int64]
	in[tk+".New"] = func(c *Call) []Out {
		cell := "new:" + c.St.Fresh(c.Site+".atomic")
		c.St.Heap[cell+"/@"] = c.Args[0]
		return one(c.St, PtrV{cell})
	}
	b := obj("/@", bt)
	in["(*"+tk+".Bool).Get"] = load(b)
	in["(*"+tk+".Bool).Set"] = store(b, true)
	in["(*"+tk+".Bool).CompareAndSwap"] = cas(b)
	for n, t := range map[string]types.Type{"Int32": i32, "Int64": i64} {
		o := obj("/@", t)
		in["(*"+tk+"."+n+").Get"] = load(o)
		in["(*"+tk+"."+n+").Swap"] = store(o, true)
		in["(*"+tk+"."+n+").Add"] = add(o)
		in["(*"+tk+"."+n+").CompareAndSwap"] = cas(o)
	}
	for n, t := range map[string]types.Type{"Bool": bt, "Int32": i32, "Int64": i64, "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]} {
		o := obj("/@", t)
		p := "(*sync/atomic." + n + ")."
		in[p+"Load"] = load(o)
		in[p+"Store"] = store(o, false)
		in[p+"Swap"] = store(o, true)
		in[p+"Add"] = add(o)
		in[p+"CompareAndSwap"] = cas(o)
		if n != "Bool" {
			d := obj("", t)
			in["sync/atomic.Load"+n] = load(d)
			in["sync/atomic.Store"+n] = store(d, false)
			in["sync/atomic.Swap"+n] = store(d, true)
			in["sync/atomic.Add"+n] = add(d)
			in["sync/atomic.CompareAndSwap"+n] = cas(d)
		}
	}
	// atomic.Value: nil until stored
	av := "(*sync/atomic.Value)."
	vget := func(st *State, cell string) Val {
		if v, ok := st.Heap[cell+"/@"]; ok {
			return v
		}
		return NilV{}
	}
	in[av+"Load"] = func(c *Call) []Out {
		cell := at(c)
		if cell == "" {
			return nil
		}
		note(c, cell+"/@", "load")
		return one(c.St, vget(c.St, cell))
	}
	in[av+"Store"] = func(c *Call) []Out {
		cell := at(c)
		if cell == "" {
			return nil
		}
		note(c, cell+"/@", "store")
		c.St.Heap[cell+"/@"] = c.Args[1]
		return one(c.St)
	}
	in[av+"Swap"] = func(c *Call) []Out {
		cell := at(c)
		if cell == "" {
			return nil
		}
		note(c, cell+"/@", "store")
		old := vget(c.St, cell)
		c.St.Heap[cell+"/@"] = c.Args[1]
		return one(c.St, old)
	}

	lock := func(acq, read bool) Intrinsic {
		return func(c *Call) []Out {
			cell := at(c)
			if cell == "" {
				return nil
			}
			k := "lock:" + cell
			n := gInt(c.St, k)
			if w.LockHook != nil {
				w.LockHook(c.St, cell, acq, read, c)
			}
			if acq {
				if !w.Check(c.St, n == 0, w.LockProp, "lock-discipline", w.Where(c.Instr), "a lock is acquired that is already held here") {
					return nil
				}
				if read {
					gSet(c.St, k, 2)
				} else {
					gSet(c.St, k, 1)
				}
			} else {
				want := int64(1)
				if read {
					want = 2
				}
				if !w.Check(c.St, n == want, w.LockProp, "lock-discipline", w.Where(c.Instr), "a lock is released that is not held in that mode") {
					return nil
				}
				gSet(c.St, k, 0)
			}
			return one(c.St)
		}
	}
	for _, t := range []string{"github.com/Allenxuxu/toolkit/sync/spinlock.SpinLock", "sync.Mutex", "sync.RWMutex"} {
		in["(*"+t+").Lock"] = lock(true, false)
		in["(*"+t+").Unlock"] = lock(false, false)
	}
	in["(*sync.RWMutex).RLock"] = lock(true, true)
	in["(*sync.RWMutex).RUnlock"] = lock(false, true)
	// wait groups (negative counters are looked for where goroutines are run)
	in["(*sync.WaitGroup).Add"] = func(c *Call) []Out {
		k := "wg:" + at(c)
		l := Lin{}
		if v, ok := c.St.G[k].(IntV); ok {
			l = v.L
		}
		c.St.G[k] = IntV{l.Add(w.E.Lin(c.Args[1]))}
		return one(c.St)
	}
	in["(*sync.WaitGroup).Done"] = func(c *Call) []Out {
		k := "wg:" + at(c)
		l := Lin{}
		if v, ok := c.St.G[k].(IntV); ok {
			l = v.L
		}
		c.St.G[k] = IntV{l.AddC(-1)}
		return one(c.St)
	}
	in["(*sync.WaitGroup).Wait"] = func(c *Call) []Out {
		c.St.G["waited:"+at(c)] = num(1)
		return one(c.St)
	}
	in["(*github.com/Allenxuxu/toolkit/sync.WaitGroupWrapper).AddAndRun"] = func(c *Call) []Out {
		gPush(c.St, "spawned", c.Args[1])
		return one(c.St)
	}
	in["(*github.com/Allenxuxu/toolkit/sync.WaitGroupWrapper).Wait"] = func(c *Call) []Out { return one(c.St) }
}

func isPure(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "bytes.", "(net.", "net.", "log.", "unicode", "time.", "(time.", "(*strings.", "math", "sort."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func freshPkt(ss []Seg) bool {
	for _, x := range ss {
		if strings.Contains(x.Tok, ".pkt") {
			return true
		}
	}
	return false
}

// FreshPkt tells whether a sequence has bytes packed in the current root.
func FreshPkt(ss []Seg) bool { return freshPkt(ss) }
