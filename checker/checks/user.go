package checks

import (
	"go/types"
	"sort"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

// The models of the user's handler, protocol and balancing strategy.

func (l *life) isConn(st *State, v Val) bool {
	return Key(v) == Key(st.G["conn"])
}

func (l *life) inLoop(c *Call, what string) {
	l.w.Check(c.St, l.thread == "loop" || l.thread == "setup", "C07", "callback-thread", l.w.Where(c.Instr), "%s is called outside the connection's event loop", what)
}

// alive checks that a callback about the connection comes between OnConnect
// and OnClose.
func (l *life) alive(c *Call, what string) {
	st := c.St
	l.w.Check(st, model.GInt(st, "onconnect") == 1, "C08", "connect-first", l.w.Where(c.Instr), "%s is called before OnConnect", what)
	l.w.Check(st, model.GInt(st, "onclose") == 0, "C06", "after-close", l.w.Where(c.Instr), "%s is called after OnClose", what)
}

func (l *life) user(c *Call, kind string) []Out {
	w, st := l.w, c.St
	one := func(v ...Val) []Out { return []Out{{St: st, Res: v}} }
	switch kind {
	case "OnConnect":
		l.inLoop(c, "OnConnect")
		w.Check(st, model.GInt(st, "onconnect") == 0, "C08", "connect-once", w.Where(c.Instr), "OnConnect is called twice for a connection")
		w.Check(st, !isNilPtr(c.Args[1]), "C08", "connect-argument", w.Where(c.Instr), "OnConnect gets no connection")
		st.G["conn"] = c.Args[1]
		model.GSet(st, "onconnect", model.GInt(st, "onconnect")+1)
		model.GSet(st, "published", 1)
		st.Note("%s: OnConnect", w.E.Pos(c.Instr))
		return one()
	case "OnClose":
		l.inLoop(c, "OnClose")
		w.Check(st, l.isConn(st, c.Args[1]), "C05", "close-argument", w.Where(c.Instr), "OnClose gets another connection")
		w.Check(st, model.GInt(st, "onclose") == 0, "C05", "close-once", w.Where(c.Instr), "OnClose is called twice for a connection")
		w.Check(st, model.GInt(st, "onconnect") == 1, "C05", "close-after-connect", w.Where(c.Instr), "OnClose is called for a connection without OnConnect")
		model.GSet(st, "onclose", model.GInt(st, "onclose")+1)
		st.Note("%s: OnClose", w.E.Pos(c.Instr))
		return one()
	case "OnMessage":
		l.inLoop(c, "OnMessage")
		l.alive(c, "OnMessage")
		w.Check(st, l.isConn(st, c.Args[1]), "C04", "message-argument", w.Where(c.Instr), "OnMessage gets another connection")
		p, ok := st.G["pend"].(TupV)
		if w.Check(st, ok, "C04", "deliver-once", w.Where(c.Instr), "OnMessage is called without a newly decoded message") {
			w.Check(st, Key(p.V[0]) == Key(c.Args[2]) && Key(p.V[1]) == Key(c.Args[3]), "C04", "deliver-unchanged", w.Where(c.Instr), "OnMessage does not get the decoded message")
		}
		w.Check(st, st.G["reply"] == nil, "C04", "reply-order", w.Where(c.Instr), "a reply is not packed before the next message is delivered")
		delete(st.G, "pend")
		t := st.Clone()
		t.Note("%s: OnMessage gives no reply", w.E.Pos(c.Instr))
		n := "<reply>"
		st.Names[n] = true
		st.Bool["nil("+n+")"] = false
		r := OpqV{N: n, T: c.Sig.Results().At(0).Type()}
		st.G["reply"] = r
		st.Note("%s: OnMessage gives a reply", w.E.Pos(c.Instr))
		return []Out{{St: st, Res: []Val{r}}, {St: t, Res: []Val{NilV{}}}}
	case "Packet":
		l.inLoop(c, "Packet")
		l.alive(c, "Packet")
		w.Check(st, l.isConn(st, c.Args[1]), "C04", "packet-argument", w.Where(c.Instr), "Packet gets another connection")
		switch {
		case st.G["reply"] != nil && Key(st.G["reply"]) == Key(c.Args[2]):
			w.Count("C04", "reply-once")
			delete(st.G, "reply")
		case strings.Contains(Key(c.Args[2]), "<DATA>"):
			w.Check(st, model.GInt(st, "sent") == 0, "C22", "pack-once", w.Where(c.Instr), "the data of one Send is packed twice")
			model.GSet(st, "sent", 1)
		default:
			w.Check(st, false, "C04", "reply-once", w.Where(c.Instr), "Packet is called on something that is no pending reply")
		}
		n := st.Fresh(c.Site + ".pkt")
		ln := At("len(" + n + ")")
		cell := "new:" + n
		st.Heap[cell] = ArrV{Len: ln, Elem: types.Typ[types.Byte]}.Write(st, Lin{}, ln, []Seg{{Tok: n, Hi: ln}})
		st.G["unsent"] = SegsV{S: NormSegs(st, append(append([]Seg(nil), model.GSegs(st, "unsent")...), Seg{Tok: n, Hi: ln}))}
		st.Note("%s: Packet", w.E.Pos(c.Instr))
		return one(SliceV{Arr: cell, Len: ln, Cap: ln})
	case "UnPacket":
		return l.unpack(c)
	}
	if strings.HasSuffix(kind, ".LoadBalanceStrategy") {
		sl, ok := c.Args[0].(SliceV)
		w.Check(st, ok && sl.Len.Eq(C(2)), "C16", "candidates", w.Where(c.Instr), "the strategy does not get the list of work loops")
		if !ok {
			return []Out{}
		}
		ss := w.E.ReadSlice(st, sl)
		v := w.E.ElemOf(st, ss, C(1), c.Sig.Params().At(0).Type().Underlying().(*types.Slice).Elem())
		model.GPush(st, "chosen", v)
		return one(v)
	}
	if strings.HasSuffix(kind, ".SendInLoopFunc") {
		l.inLoop(c, "the completion function of Send")
		w.Check(st, model.GInt(st, "finished") == 0, "C22", "finish-once", w.Where(c.Instr), "the completion function of one Send is called twice")
		w.Check(st, model.GInt(st, "sent") == 1, "C22", "finish-after-send", w.Where(c.Instr), "the completion function of Send is called before the data was sent")
		w.Check(st, model.GInt(st, "onclose") > 0 || heldOut(st), "C22", "finish-after-send", w.Where(c.Instr), "the completion function of Send is called before the data was sent or stored for sending")
		w.Check(st, strings.Contains(Key(c.Args[0]), "<DATA>"), "C22", "finish-argument", w.Where(c.Instr), "the completion function of Send does not get the data")
		model.GSet(st, "finished", 1)
		return one()
	}
	return nil
}

func isNilPtr(v Val) bool {
	if p, ok := v.(PtrV); ok {
		return p.Cell == ""
	}
	_, n := v.(NilV)
	return n || v == nil
}

// unpack: a decoder consumes any number of bytes and may give a message.
func (l *life) unpack(c *Call) []Out {
	w, st := l.w, c.St
	l.inLoop(c, "UnPacket")
	l.alive(c, "UnPacket")
	w.Check(st, l.isConn(st, c.Args[1]), "C04", "unpack-argument", w.Where(c.Instr), "UnPacket gets another connection")
	if !w.Check(st, st.G["pend"] == nil, "C04", "deliver-all", w.Where(c.Instr), "a decoded message is dropped: UnPacket is called again before OnMessage") {
		return []Out{}
	}
	w.Check(st, st.G["reply"] == nil, "C04", "reply-sent", w.Where(c.Instr), "a reply of OnMessage is dropped: UnPacket is called before Packet")
	p, ok := c.Args[2].(PtrV)
	if !ok || p.Cell == "" {
		w.Check(st, false, "C03", "decoder-input", w.Where(c.Instr), "UnPacket gets no buffer")
		return []Out{}
	}
	r, ok := st.Heap[p.Cell].(RingV)
	if !ok {
		r = RingV{Mode: 'o'}
	}
	if r.Put > 0 {
		w.Check(st, false, "C06", "use-after-release", w.Where(c.Instr), "UnPacket gets a buffer that was returned to the pool")
		return []Out{}
	}
	in := model.GSegs(st, "in")
	got := w.RingSegs(st, r)
	if r.Flag {
		got = nil
	}
	if !w.Check(st, SameSegs(st, got, in), "C03", "decoder-input", w.Where(c.Instr), "the decoder sees [%s], the undecoded bytes are [%s]", Key(SegsV{S: got}), Key(SegsV{S: in})) {
		return []Out{}
	}
	delete(st.G, "more")
	var outs []Out
	n := SegsLen(in)
	if st.EntailsEQ(n) {
		in, n = nil, Lin{}
	}
	for i := 0; i < 9; i++ {
		kind := []string{"none", "ctx", "data"}[i/3]
		if i == 3 || i == 4 || i == 6 {
			continue // these differ from the others only in what the message is
		}
		t := st.Clone()
		var k Lin
		switch i % 3 {
		case 0: // nothing consumed
		case 1: // everything consumed
			k = n
			if !t.Assume(GE(n.AddC(-1))) {
				continue
			}
		case 2:
			k = At("pos(" + t.Fresh(c.Site+".k") + ")")
			if !t.Assume(LT(k, n)) {
				continue
			}
		}
		c2 := *c
		c2.St = t
		c2.Name = "(*" + model.Ring + ".RingBuffer).Retrieve"
		c2.Args = []Val{p, IntV{L: k}}
		for _, o := range w.E.Intr[c2.Name](&c2) {
			w.Cut(o.St, in, k, func(u *State, head, tail []Seg) {
				u.G["in"] = SegsV{S: NormSegs(u, tail)}
				var ctx, data Val = NilV{}, SliceV{}
				switch kind {
				case "none":
					u.Note("%s: UnPacket gives nothing", w.E.Pos(c.Instr))
				case "ctx":
					n := u.Fresh(c.Site + ".ctx")
					u.Bool["nil("+n+")"] = false
					ctx = OpqV{N: n, T: c.Sig.Results().At(0).Type()}
					data = w.E.Opaque(u, c.Site+".data", c.Sig.Results().At(1).Type())
					u.Note("%s: UnPacket gives a message", w.E.Pos(c.Instr))
				case "data":
					data = w.E.Opaque(u, c.Site+".data", c.Sig.Results().At(1).Type())
					u.Assume(GE(data.(SliceV).Len.AddC(-1)))
					u.Note("%s: UnPacket gives data", w.E.Pos(c.Instr))
				}
				if kind != "none" {
					u.G["pend"] = TupV{V: []Val{ctx, data}}
					model.GSet(u, "more", 1)
				}
				outs = append(outs, Out{St: u, Res: []Val{ctx, data}})
			})
		}
	}
	return outs
}

// ---- accesses ----

func (l *life) access(st *State, cell string, write, atomic bool, in ssa.Instruction) {
	if l.thread == "" || l.thread == "main" || in == nil {
		return
	}
	th := l.thread
	root := CellRoot(cell)
	if th == "setup" {
		if model.GInt(st, "published") == 0 {
			return
		}
		th = "loop"
	}
	if th == "listener" && !l.hasRoot(root) && st.G["queue"] == nil {
		return // not handed over yet
	}
	if th == "any" || th == "timer" {
		// memory of the call itself, before it is handed over
		if l.pre != nil && strings.HasPrefix(root, "new:") && !l.hasRoot(root) {
			return
		}
	}
	var locks []string
	for k, v := range st.G {
		if strings.HasPrefix(k, "lock:") {
			locks = append(locks, k[5:]+"="+Key(v))
		}
	}
	sort.Strings(locks)
	a := acc{thread: th, write: write, atomic: atomic, locks: strings.Join(locks, ","), where: l.w.Where(in)}
	m := l.accs[cell]
	if m == nil {
		m = map[string]acc{}
		l.accs[cell] = m
	}
	m[a.thread+a.where+a.locks] = a
}

func (l *life) hasRoot(root string) bool {
	if _, ok := l.pre.Heap[root]; ok {
		return true
	}
	for k := range l.pre.Heap {
		if strings.HasPrefix(k, root+"/") {
			return true
		}
	}
	return false
}

// races reports cells that two goroutines may touch at the same time.
func (l *life) races() { l.racesAs("C07", "the connection", "confinement") }

func (l *life) racesAs(prop, what, rule string) {
	var cells []string
	for c := range l.accs {
		cells = append(cells, c)
	}
	sort.Strings(cells)
	for _, cell := range cells {
		var as []acc
		var ks []string
		for k := range l.accs[cell] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			as = append(as, l.accs[cell][k])
		}
		l.w.Count(prop, rule)
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write || a.atomic && b.atomic {
					continue
				}
				if a.thread == b.thread && a.thread != "any" {
					continue
				}
				if common(a.locks, b.locks) {
					continue
				}
				l.w.Fail(nil, prop, rule, a.where, "memory of "+what+" (%s) is accessed by its event loop and by another goroutine without synchronisation: %s (%s) and %s (%s)", shortCell(cell), a.where, a.thread, b.where, b.thread)
			}
		}
	}
}

func common(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			i, j := strings.LastIndexByte(x, '='), strings.LastIndexByte(y, '=')
			if x[:i] == y[:j] && (x[i+1:] == "1" || y[j+1:] == "1") {
				return true
			}
		}
	}
	return false
}

func shortCell(c string) string {
	if i := strings.IndexByte(c, '/'); i >= 0 {
		return c[i+1:]
	}
	return c
}

// heldOut: the bytes that were packed but not written are none or are the
// content of a buffer.
func heldOut(st *State) bool {
	uns := NormSegs(st, model.GSegs(st, "unsent"))
	if st.EntailsEQ(SegsLen(uns)) {
		return true
	}
	for _, v := range st.Heap {
		if r, ok := v.(RingV); ok && r.Mode == 'o' && SameSegs(st, r.S, uns) {
			return true
		}
	}
	return false
}
