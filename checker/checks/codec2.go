package checks

import (
	"fmt"
	"go/types"

	. "gevcheck/absint"
	"gevcheck/model"
)

// ---- C34: the default protocol ----

func (k *codec) c34(st0 *State) {
	w := k.w
	k.prop, k.wire = "C34", true
	recv := PtrV{Cell: "new:<default>"}
	fn := w.Fn(model.Gev, "DefaultProtocol.UnPacket")
	where := "DefaultProtocol.UnPacket"
	n := At("len(<in>)")
	all := []Seg{{Tok: "<in>", Hi: n}}
	for _, mode := range []byte{'o', 'v'} {
		st := st0.Clone()
		r := k.ring(st, all, mode)
		keep(st, "atoms", IntV{L: n})
		outs := call(w, st, fn, recv, k.conn, r)
		w.Check(st, len(outs) > 0, "C34", "unpacks", where, "no outcome")
		for _, t := range outs {
			split(t, func(t *State, v []bool) {
				if v[0] {
					w.Check(t, emptyVal(t, t.Res[1]) && isNilVal(t.Res[0]), "C34", "nothing", where, "something is delivered although no byte was received")
				} else {
					got, ok := k.bytesOf(t, t.Res[1])
					w.Check(t, ok && SameSegs(t, got, all), "C34", "all-bytes", where, "the callback gets %s instead of all received bytes in order", Key(SegsV{S: got}))
				}
				_, have := k.left(t)
				w.Check(t, SameSegs(t, have, nil) && k.clean(t, nil), "C34", "once", where, "bytes that are delivered stay in the buffer")
				w.Check(t, model.GInt(t, "closed") == 0 && model.GInt(t, "shutdown") == 0, "C34", "stays-open", where, "the connection is closed")
			}, LE(n, Lin{}))
		}
	}
	st := st0.Clone()
	reply := k.slice(st, "<reply>")
	for _, t := range call(w, st, w.Fn(model.Gev, "DefaultProtocol.Packet"), recv, k.conn, reply) {
		got, ok := k.bytesOf(t, t.Res[0])
		w.Check(t, ok && SameSegs(t, got, []Seg{{Tok: "<reply>", Hi: At("len(<reply>)")}}), "C34", "reply-unchanged", "DefaultProtocol.Packet", "a reply is sent as %s", Key(SegsV{S: got}))
	}
}

// slice makes a byte slice of unknown content.
func (k *codec) slice(st *State, n string) IfaceV {
	st.Names[n] = true
	l := At("len(" + n + ")")
	st.Assume(LE(l, C(1<<47)))
	st.Heap["new:"+n] = ArrV{Len: l, Elem: byteT}.Write(st, Lin{}, l, []Seg{{Tok: n, Hi: l}})
	v := IfaceV{T: types.NewSlice(byteT), V: SliceV{Arr: "new:" + n, Len: l, Cap: l}}
	keep(st, n, v)
	return v
}

// shared checks that a string does not share memory that was given back or
// overwritten since.
func (k *codec) shared(t *State, v Val) bool {
	if i, ok := v.(IfaceV); ok {
		v = i.V
	}
	s, ok := v.(StrV)
	if !ok || s.From == nil {
		return false
	}
	sl := s.From.(SliceV)
	return model.GInt(t, "bput:"+sl.Arr) > 0 || !SameSegs(t, k.w.E.ReadSlice(t, sl), s.S)
}

// ---- C31: protobuf ----

func (k *codec) c31(st0 *State) {
	w := k.w
	k.prop, k.wire = "C31", true
	st := st0.Clone()
	outs := call(w, st, w.Fn(model.PB, "New"))
	if len(outs) != 1 {
		panic(Undecided{Msg: "protobuf.New has several outcomes"})
	}
	st0 = outs[0]
	p := st0.Res[0]
	keep(st0, "proto", p)
	fn := w.Fn(model.PB, "Protocol.UnPacket")
	where := "protobuf.Protocol.UnPacket"
	n := At("len(<in>)")
	all := []Seg{{Tok: "<in>", Hi: n}}
	L, T := At("be4(<in>@0)"), At("be2(<in>@4)")
	for _, mode := range []byte{'o', 'v'} {
		for _, short := range []bool{true, false} {
			st := st0.Clone()
			if short {
				st.Assume(LE(n, C(5)))
			} else {
				st.Assume(GE(n.AddC(-6)))
			}
			r := k.ring(st, all, mode)
			keep(st, "atoms", TupV{V: []Val{IntV{L: n}, IntV{L: L}, IntV{L: T}}})
			outs := call(w, st, fn, p, k.conn, r)
			w.Check(st, len(outs) > 0, "C31", "decodes", where, "no outcome")
			for _, t := range outs {
				none := func(t *State) bool { return isNilVal(t.Res[0]) && emptyVal(t, t.Res[1]) }
				if short {
					w.Check(t, none(t), "C31", "incomplete", where, "a message is delivered before its lengths have arrived")
					if model.GInt(t, "closed") > 0 {
						// only a length below two is wrong already
						w.Check(t, t.Decide(LE(L, C(1))) == 1 && t.Decide(GE(n.AddC(-4))) == 1, "C31", "incomplete", where, "the connection is closed before a whole frame has arrived")
					} else {
						w.Check(t, k.clean(t, all), "C31", "unconsumed", where, "an incomplete frame is not left in the buffer as it was")
					}
					continue
				}
				split(t, func(t *State, v []bool) {
					whole := v[1]
					closed := model.GInt(t, "closed") > 0
					if !v[0] || whole && !v[2] {
						w.Check(t, none(t), "C31", "malformed", where, "a frame with an impossible inner length is delivered")
						w.Check(t, closed, "C31", "malformed", where, "the connection stays open after a frame with an impossible inner length")
						return
					}
					if !whole {
						w.Check(t, none(t), "C31", "incomplete", where, "an incomplete frame is delivered")
						w.Check(t, !closed || !v[2], "C31", "incomplete", where, "the connection is closed before a whole frame has arrived")
						if !closed {
							w.Check(t, k.clean(t, all), "C31", "unconsumed", where, "an incomplete frame is not left in the buffer as it was")
						}
						return
					}
					w.Check(t, !closed, "C31", "decodes", where, "the connection is closed for a correct frame")
					end := T.AddC(6)
					ctx, ok := t.Res[0].(IfaceV)
					if w.Check(t, ok && ctx.T.String() == "string", "C31", "type", where, "the context of a message is not its type name") {
						got, _ := k.bytesOf(t, ctx.V)
						w.Check(t, SameSegs(t, got, w.E.SubSegs(t, all, C(6), end)), "C31", "type", where, "the type name is %s", Key(SegsV{S: got}))
						w.Check(t, !k.shared(t, ctx.V), "C31", "type", where, "the type name shares memory that is reused before the callback gets it")
					}
					got, ok := k.bytesOf(t, t.Res[1])
					w.Check(t, ok && SameSegs(t, got, w.E.SubSegs(t, all, end, L.AddC(4))), "C31", "payload", where, "the payload is %s", Key(SegsV{S: got}))
					w.Check(t, k.clean(t, w.E.SubSegs(t, all, L.AddC(4), n)), "C31", "consumed", where, "not exactly one frame is consumed")
				}, GE(L.AddC(-2)), GE(n.Sub(L).AddC(-4)), GE(L.Sub(T).AddC(-2)))
			}
		}
	}
	// packing
	st = st0.Clone()
	tl, dl := At("len(<type>)"), At("len(<data>)")
	st.Names["<type>"] = true
	typ := StrV{S: []Seg{{Tok: "<type>", Hi: tl}}}
	keep(st, "type", typ)
	data := k.slice(st, "<data>").V
	st.Assume(LE(tl, C(65535)))
	st.Assume(LE(dl.Add(tl).AddC(2), C(1<<32-1)))
	where = "PackMessage"
	for _, t := range call(w, st, w.Fn(model.PB, "PackMessage"), typ, data) {
		ss, ok := k.bytesOf(t, t.Res[0])
		if !w.Check(t, ok && t.EntailsEQ(SegsLen(ss).Sub(tl).Sub(dl).AddC(-6)), "C31", "packs", where, "a packed message has %s bytes", SegsLen(ss)) {
			continue
		}
		w.Check(t, k.isBig(t, ss, 0, 4, tl.Add(dl).AddC(2)), "C31", "packs", where, "the first four bytes are not the length of what follows")
		w.Check(t, k.isBig(t, ss, 4, 2, tl), "C31", "packs", where, "the next two bytes are not the length of the type name")
		w.Check(t, SameSegs(t, w.E.SubSegs(t, ss, C(6), tl.AddC(6)), typ.S), "C31", "packs", where, "the type name does not follow")
		w.Check(t, SameSegs(t, w.E.SubSegs(t, ss, tl.AddC(6), tl.Add(dl).AddC(6)), []Seg{{Tok: "<data>", Hi: dl}}), "C31", "packs", where, "the payload does not follow the type name")
	}
	st = st0.Clone()
	reply := k.slice(st, "<reply>")
	for _, t := range call(w, st, w.Fn(model.PB, "Protocol.Packet"), p, k.conn, reply) {
		got, ok := k.bytesOf(t, t.Res[0])
		w.Check(t, ok && SameSegs(t, got, []Seg{{Tok: "<reply>", Hi: At("len(<reply>)")}}), "C31", "reply-unchanged", "protobuf.Protocol.Packet", "a packed reply is sent as %s", Key(SegsV{S: got}))
	}
}

// ---- C28, C29, C30: the websocket handler ----

// frameIs checks that v is one unmasked final frame.
func (k *codec) frameIs(t *State, prop, rule string, v Val, op int64, body []Seg, where string) {
	w := k.w
	ss, ok := k.bytesOf(t, v)
	if !w.Check(t, ok && len(ss) > 0, prop, rule, where, "no frame is sent") {
		return
	}
	ln := SegsLen(body)
	b, _ := w.E.Bits(cst(0x80|op), 8)
	split(t, func(t *State, c []bool) {
		h := int64(10)
		if c[0] {
			h = 2
		} else if c[1] {
			h = 4
		}
		if !w.Check(t, t.EntailsEQ(SegsLen(ss).Sub(ln).AddC(-h)), prop, rule, where, "%s bytes are sent for a frame of %s payload bytes", SegsLen(ss), ln) {
			return
		}
		k.encoded(t, prop, w.E.SubSegs(t, ss, C(0), C(h)), b.B, false, ln, c[0], c[1], where)
		w.Check(t, SameSegs(t, w.E.SubSegs(t, ss, C(h), ln.AddC(h)), body), prop, rule, where, "the payload of the frame is %s instead of %s", Key(SegsV{S: w.E.SubSegs(t, ss, C(h), ln.AddC(h))}), Key(SegsV{S: body}))
	}, LE(ln, C(125)), LE(ln, C(65535)))
}

type reply struct {
	typ   int64
	empty bool
}

func (k *codec) c28(st0 *State) {
	w := k.w
	k.prop, k.wire = "C28,C30", true
	pl := At("len(<payload>)")
	payload := []Seg{{Tok: "<payload>", Hi: pl}}
	hv := OpqV{N: "<wshandler>", T: w.Type(model.WSP, "WSHandler")}
	st := st0.Clone()
	st.Bool["nil(<wshandler>)"] = false
	st.Names["<wshandler>"] = true
	keep(st, "wsh", hv)
	var rep reply
	w.User = func(c *Call, kind string) []Out {
		st := c.St
		if o, ok := c.Args[0].(OpqV); !ok || o.N != "<wshandler>" {
			return nil
		}
		model.GSet(st, "called:"+kind, model.GInt(st, "called:"+kind)+1)
		w.Check(st, Key(c.Args[1]) == Key(k.conn), "C28", "connection", w.Where(c.Instr), "%s gets another connection", kind)
		if kind != "OnMessage" {
			return []Out{{St: st}}
		}
		b, ok := k.bytesOf(st, c.Args[2])
		w.Check(st, ok && SameSegs(st, b, payload), "C28", "payload", w.Where(c.Instr), "the handler gets %s instead of the payload", Key(SegsV{S: b}))
		var v Val = SliceV{}
		if !rep.empty {
			st.Assume(GE(At("len(<reply>)").AddC(-1)))
			v = k.slice(st, "<reply>").V
		}
		return []Out{{St: st, Res: []Val{cst(rep.typ), v}}}
	}
	up := PtrV{Cell: "sym:<nonnil upgrader>"}
	outs := call(w, st, w.Fn(model.WSP, "NewHandlerWrap"), up, hv)
	if len(outs) != 1 {
		panic(Undecided{Msg: "NewHandlerWrap has several outcomes"})
	}
	st = outs[0]
	hw := st.Res[0]
	keep(st, "wrap", hw)
	fn := w.Fn(model.WSP, "HandlerWrap.OnMessage")
	called := func(t *State) int64 { return model.GInt(t, "called:OnMessage") }
	// the reply to the handshake
	{
		st := st.Clone()
		p := k.slice(st, "<payload>").V
		for _, t := range call(w, st, fn, hw, k.conn, NilV{}, p) {
			where := "websocket.HandlerWrap.OnMessage"
			w.Check(t, called(t) == 0, "C28", "handshake", where, "the handler is called for the handshake")
			b, ok := k.bytesOf(t, t.Res[0])
			w.Check(t, ok && SameSegs(t, b, payload), "C28", "handshake", where, "the answer to the handshake is sent as %s", Key(SegsV{S: b}))
			w.Check(t, model.GInt(t, "closed")+model.GInt(t, "shutdown") == 0, "C28", "handshake", where, "the connection ends after the handshake")
		}
	}
	for op := int64(0); op < 16; op++ {
		where := fmt.Sprintf("websocket.HandlerWrap.OnMessage with opcode %d", op)
		reps := []reply{{1, true}, {1, false}, {2, false}}
		if op != 1 && op != 2 {
			reps = reps[:2]
		}
		for _, rp := range reps {
			rep = rp
			st := st.Clone()
			p := k.slice(st, "<payload>").V
			bits := BVV{B: make([]Bit, 8)}
			for i := 0; i < 3; i++ {
				bits.B[i] = bitOf(fmt.Sprintf("u8(<rsv>)#%d", i))
			}
			h := k.header(st, map[string]Val{"Fin": BoolV{C: Atom("t(<fin>)")}, "Masked": BoolV{C: Atom("t(<masked>)")}, "Rsv": bits, "OpCode": cst(op), "Mask": maskArr("<mask>"), "Length": IntV{L: pl}})
			ctx := IfaceV{T: types.NewPointer(w.Type(model.WS, "Header")), V: h}
			keep(st, "ctx", ctx)
			outs := call(w, st, fn, hw, k.conn, ctx, p)
			w.Check(st, len(outs) > 0, "C28", "dispatch", where, "no outcome")
			for _, t := range outs {
				res := t.Res[0]
				shut := model.GInt(t, "shutdown")
				switch {
				case op == 1 || op == 2:
					w.Check(t, called(t) == 1, "C28", "dispatch", where, "the handler is called %d times for a message", called(t))
					w.Check(t, shut == 0 && model.GInt(t, "closed") == 0, "C28", "stays-open", where, "the connection ends after a message")
					if rp.empty {
						w.Check(t, emptyVal(t, res), "C30", "no-reply", where, "something is sent although the handler gave no reply")
					} else {
						k.frameIs(t, "C30", "framed", res, rp.typ, []Seg{{Tok: "<reply>", Hi: At("len(<reply>)")}}, where)
					}
				case op == 8:
					w.Check(t, called(t) == 0, "C28", "control", where, "a control frame reaches the message handler")
					w.Check(t, shut+model.GInt(t, "closed") > 0 && model.GInt(t, "closed") == 0, "C28", "close", where, "a close frame does not end the connection after the answer")
					k.closeReply(t, res, pl, where)
				case op >= 8:
					w.Check(t, called(t) == 0, "C28", "control", where, "a control frame reaches the message handler")
					if op < 11 {
						w.Check(t, shut == 0 && model.GInt(t, "closed") == 0, "C28", "stays-open", where, "the connection ends after a ping or pong")
					}
					if op == 9 {
						split(t, func(t *State, v []bool) {
							if v[0] {
								k.frameIs(t, "C28", "pong", res, 10, payload, where)
							}
						}, LE(pl, C(125)))
					}
				case op == 0:
					w.Check(t, called(t) <= 1, "C28", "dispatch", where, "the handler is called %d times for one frame", called(t))
				}
			}
		}
	}
	// connecting and closing
	for _, m := range []string{"OnConnect", "OnClose"} {
		where := "websocket.HandlerWrap." + m
		for _, t := range call(w, st, w.Fn(model.WSP, "HandlerWrap."+m), hw, k.conn) {
			w.Check(t, model.GInt(t, "called:"+m) == 1, "C28", "forwarded", where, "%s of the handler is called %d times", m, model.GInt(t, "called:"+m))
		}
	}
	// replies packed by hand
	for _, typ := range []int64{1, 2} {
		u := st.Clone()
		d := k.slice(u, "<reply>").V
		where := "util.PackData"
		for _, t := range call(w, u, w.Fn(model.WSU, "PackData"), cst(typ), d) {
			w.Check(t, isNilErr(t.Res[1]), "C30", "packs", where, "packing fails")
			k.frameIs(t, "C30", "packs", t.Res[0], typ, []Seg{{Tok: "<reply>", Hi: At("len(<reply>)")}}, where)
		}
	}
}

// each gives the states for every value of c between lo and hi.
func each(t *State, c Lin, lo, hi int64, f func(t *State)) {
	for x := lo; x <= hi; x++ {
		u := t.Clone()
		if u.Decide(EQ(c, C(x))) != 0 && u.Assume(EQ(c, C(x))) {
			f(u)
		}
	}
}

// codeClass splits a state by what RFC 6455 says about a close code: 1
// allowed, 0 not allowed, -1 not judged.
func codeClass(t *State, c Lin, f func(t *State, class int)) {
	split(t, func(t *State, v []bool) {
		switch {
		case v[0]:
			f(t, 0)
		case v[1]:
			each(t, c, 1000, 1003, func(t *State) { f(t, 1) })
		case v[2]:
			each(t, c, 1004, 1006, func(t *State) { f(t, 0) })
		case v[3]:
			each(t, c, 1007, 1011, func(t *State) { f(t, 1) })
		case v[4]:
			f(t, -1)
		case v[5]:
			f(t, 0)
		case v[6]:
			f(t, 1)
		default:
			f(t, -1)
		}
	}, LE(c, C(999)), LE(c, C(1003)), LE(c, C(1006)), LE(c, C(1011)), LE(c, C(1014)), LE(c, C(2999)), LE(c, C(4999)))
}

// closeReply checks the answer to a close frame.
func (k *codec) closeReply(t *State, res Val, pl Lin, where string) {
	w := k.w
	ss, ok := k.bytesOf(t, res)
	if !w.Check(t, ok && len(ss) > 0, "C28,C29", "close-answered", where, "a close frame is not answered") {
		return
	}
	total := SegsLen(ss)
	b, _ := w.E.Bits(cst(0x88), 8)
	if !w.Check(t, t.EntailsGE(total.AddC(-2)) && t.EntailsGE(total.Neg().AddC(127)), "C28,C29", "close-answered", where, "the answer to a close frame has %s bytes", total) {
		return
	}
	k.encoded(t, "C28,C29", w.E.SubSegs(t, ss, C(0), C(2)), b.B, false, total.AddC(-2), true, true, where)
	code := At("be2(<payload>@0)")
	split(t, func(t *State, v []bool) {
		if v[0] {
			w.Check(t, t.EntailsEQ(total.AddC(-2)) || k.codeIs(t, ss, C(1000)), "C29", "empty-close", where, "a close frame without a code is not answered by one")
			return
		}
		if v[1] {
			w.Check(t, k.codeIs(t, ss, C(1002)), "C29", "refused", where, "a close frame with half a code is not answered as a protocol error")
			return
		}
		codeClass(t, code, func(t *State, class int) {
			if class < 0 {
				return
			}
			text := w.Utf8(t, []Seg{{Tok: "<payload>", Lo: C(2), Hi: pl}})
			split(t, func(t *State, v []bool) {
				if class == 1 && v[0] {
					w.Check(t, k.codeIs(t, ss, code), "C29", "echoed", where, "a valid close code is not echoed")
					rest := w.E.SubSegs(t, ss, C(4), total)
					w.Check(t, SameSegs(t, rest, nil) || SameSegs(t, rest, []Seg{{Tok: "<payload>", Lo: C(2), Hi: total.AddC(-2)}}), "C29", "echoed", where, "the answer to a close frame carries another reason")
					return
				}
				ok := k.codeIs(t, ss, C(1002))
				if class == 1 {
					ok = ok || k.codeIs(t, ss, C(1007))
				}
				w.Check(t, ok, "C29", "refused", where, "a close frame with an invalid code or reason is not answered as a protocol error")
			}, text)
		})
	}, LE(pl, Lin{}), LE(pl, C(1)))
}

func (k *codec) codeIs(t *State, ss []Seg, c Lin) bool {
	if !t.EntailsGE(SegsLen(ss).AddC(-4)) {
		return false
	}
	return k.isBig(t, ss, 2, 2, c)
}

func (k *codec) c29(st0 *State) {
	w := k.w
	k.prop, k.wire = "C29", true
	// the code check
	st := st0.Clone()
	code := At("u16(<code>)")
	st.Names["<reason>"] = true
	rl := At("len(<reason>)")
	reason := StrV{S: []Seg{{Tok: "<reason>", Hi: rl}}}
	keep(st, "reason", reason)
	keep(st, "code", IntV{L: code})
	where := "util.CheckCloseFrameData"
	outs := call(w, st, w.Fn(model.WSU, "CheckCloseFrameData"), IntV{L: code}, reason)
	w.Check(st, len(outs) > 0, "C29", "checked", where, "no outcome")
	for _, t := range outs {
		codeClass(t, code, func(t *State, class int) {
			if class < 0 {
				return
			}
			split(t, func(t *State, v []bool) {
				ok := isNilErr(t.Res[0])
				if class == 1 && v[0] {
					w.Check(t, ok, "C29", "accepted", where, "a valid close code is refused")
				} else {
					w.Check(t, !ok, "C29", "invalid-refused", where, "an invalid close code or reason is accepted")
				}
			}, w.Utf8(t, reason.S))
		})
	}
	// bodies
	st = st0.Clone()
	st.Names["<reason>"] = true
	keep(st, "reason", reason)
	keep(st, "code", IntV{L: code})
	where = "NewCloseFrameBody"
	for _, t := range call(w, st, w.Fn(model.WS, "NewCloseFrameBody"), IntV{L: code}, reason) {
		split(t, func(t *State, v []bool) {
			n := rl
			if !v[0] {
				n = C(123)
			}
			ss, ok := k.bytesOf(t, t.Res[0])
			if !w.Check(t, ok && t.EntailsEQ(SegsLen(ss).Sub(n).AddC(-2)), "C29", "body", where, "the body has %s bytes", SegsLen(ss)) {
				return
			}
			w.Check(t, k.isBig(t, ss, 0, 2, code), "C29", "body", where, "the body does not begin with the code")
			w.Check(t, SameSegs(t, w.E.SubSegs(t, ss, C(2), n.AddC(2)), []Seg{{Tok: "<reason>", Hi: n}}), "C29", "body", where, "the body does not end with the reason")
		}, LE(rl, C(123)))
	}
	st = st0.Clone()
	p := k.slice(st, "<payload>").V
	pl := At("len(<payload>)")
	where = "ParseCloseFrameData"
	for _, t := range call(w, st, w.Fn(model.WS, "ParseCloseFrameData"), p) {
		split(t, func(t *State, v []bool) {
			s, ok := k.bytesOf(t, t.Res[1])
			c := w.E.Lin(t.Res[0])
			if v[0] {
				w.Check(t, ok && SameSegs(t, s, nil) && t.EntailsEQ(c), "C29", "parsed", where, "a body without a code has a code or a reason")
				return
			}
			w.Check(t, t.EntailsEQ(c.Sub(At("be2(<payload>@0)"))), "C29", "parsed", where, "the code is %s", c)
			w.Check(t, ok && SameSegs(t, s, []Seg{{Tok: "<payload>", Lo: C(2), Hi: pl}}), "C29", "parsed", where, "the reason is %s", Key(SegsV{S: s}))
		}, LE(pl, C(1)))
	}
	// a close frame for a reason
	st = st0.Clone()
	st.Names["<reason>"] = true
	keep(st, "reason", reason)
	keep(st, "code", IntV{L: code})
	where = "util.PackCloseData"
	for _, t := range call(w, st, w.Fn(model.WSU, "PackCloseData"), reason) {
		split(t, func(t *State, v []bool) {
			n := rl
			if !v[0] {
				n = C(123)
			}
			w.Check(t, isNilErr(t.Res[1]), "C29", "packs", where, "packing fails")
			k.frameIs(t, "C29", "packs", t.Res[0], 8, []Seg{{V: cst(3), Hi: C(1)}, {V: cst(0xe8), Hi: C(1)}, {Tok: "<reason>", Hi: n}}, where)
		}, LE(rl, C(123)))
	}
}
