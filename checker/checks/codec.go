package checks

import (
	"fmt"
	"go/types"

	. "gevcheck/absint"
	"gevcheck/model"

	"golang.org/x/tools/go/ssa"
)

// codec runs the bundled protocols on unknown bytes.
type codec struct {
	w    *model.World
	conn PtrV
	// panics, bounds: C32 is reported for what a peer can reach
	wire bool
	// prop is the property under analysis: a panic breaks it too
	prop string
	// part of parts: the share of the second bytes to look at
	part, parts int
}

func (k *codec) also(p string) string {
	if k.prop != "" {
		return p + "," + k.prop
	}
	return p
}

const connCell = "new:<conn>"

var byteT = types.Typ[types.Byte]

func newCodec(p *Program) (*codec, *State) {
	w, st := newWorld(p, model.Gev, model.WS, model.WSU, model.WSP, model.PB)
	k := &codec{w: w, conn: PtrV{Cell: connCell}}
	w.E.Narrow = true
	in := w.E.Intr
	in["(*"+model.Gev+".Connection).Close"] = func(c *Call) []Out {
		model.GSet(c.St, "closed", model.GInt(c.St, "closed")+1)
		return []Out{{St: c.St, Res: []Val{NilV{}}}}
	}
	in["(*"+model.Gev+".Connection).ShutdownWrite"] = func(c *Call) []Out {
		model.GSet(c.St, "shutdown", model.GInt(c.St, "shutdown")+1)
		return []Out{{St: c.St, Res: []Val{NilV{}}}}
	}
	in["(*"+model.Gev+".Connection).UserBuffer"] = func(c *Call) []Out {
		return []Out{{St: c.St, Res: []Val{PtrV{Cell: "new:<ub>"}}}}
	}
	in[model.WS+".Cipher"] = k.cipher
	w.E.OnBounds = func(s *State, what string, ok bool, in ssa.Instruction) {
		if k.wire {
			w.Check(s, ok, k.also("C32"), "bounds", w.Where(in), "the %s is not within bounds for every input", what)
		}
	}
	w.E.OnPanic = func(s *State, in ssa.Instruction, why string) {
		if k.wire {
			w.Fail(s, k.also("C32"), "panic", w.Where(in), "a peer can make the server panic: %s", why)
		}
	}
	n := At("len(<ub>)")
	st.Heap["new:<ubarr>"] = ArrV{Len: n, Elem: byteT, P: []Piece{{Hi: n, S: Seg{Tok: "<ubold>", Hi: n}}}}
	st.Heap["new:<ub>"] = SliceV{Arr: "new:<ubarr>", Len: n, Cap: n}
	keep(st, "ub", PtrV{Cell: "new:<ub>"})
	keep(st, "conn", k.conn)
	return k, st
}

// ring makes a buffer with the given content.
func (k *codec) ring(st *State, ss []Seg, mode byte) Val {
	cell := "new:<ring>"
	if mode == 'v' {
		n := SegsLen(ss)
		a := ArrV{Len: n, Elem: byteT}
		st.Heap["new:<view>"] = a.Write(st, Lin{}, n, ss)
		st.Heap[cell] = RingV{Mode: 'v', View: SliceV{Arr: "new:<view>", Len: n, Cap: n}}
	} else {
		st.Heap[cell] = RingV{Mode: 'o', S: NormSegs(st, ss)}
	}
	keep(st, "ring", PtrV{Cell: cell})
	return PtrV{Cell: cell}
}

func (k *codec) left(st *State) (RingV, []Seg) {
	r := st.Heap["new:<ring>"].(RingV)
	return r, k.w.RingSegs(st, r)
}

// clean tells whether the buffer shows exactly ss to the next reader.
func (k *codec) clean(st *State, ss []Seg) bool {
	r, have := k.left(st)
	empty := st.EntailsEQ(SegsLen(ss))
	return SameSegs(st, have, ss) && (empty || st.EntailsEQ(r.VR) && !r.Flag && !r.Drained)
}

// cipher: the exclusive or of a payload and a mask, as a term.
func (k *codec) cipher(c *Call) []Out {
	st := c.St
	sl, ok := c.Args[0].(SliceV)
	if !ok {
		panic(Undecided{Msg: "Cipher of an unknown slice"})
	}
	if sl.Arr == "" || st.EntailsEQ(sl.Len) {
		return []Out{{St: st}}
	}
	body := k.w.E.ReadSlice(st, sl)
	k.w.E.WriteSlice(st, sl, xorSegs(body, k.maskSegs(st, c.Args[1]), c.Args[2]))
	return []Out{{St: st}}
}

func xorSegs(body, mask []Seg, off Val) []Seg {
	return []Seg{{Tok: "xor", V: TupV{V: []Val{SegsV{S: body}, SegsV{S: mask}, off}}, Hi: SegsLen(body)}}
}

func (k *codec) maskSegs(st *State, v Val) []Seg {
	a, ok := v.(ArrV)
	if !ok {
		return []Seg{{Tok: "?", Hi: C(4)}}
	}
	st.Heap["new:<tmp>"] = a
	ss := k.w.E.ReadSlice(st, SliceV{Arr: "new:<tmp>", Len: C(4), Cap: C(4)})
	delete(st.Heap, "new:<tmp>")
	return ss
}

// sameText compares two sequences, looking into exclusive ors.
func sameText(st *State, a, b []Seg) bool {
	a, b = NormSegs(st, a), NormSegs(st, b)
	if len(a) == 1 && len(b) == 1 && a[0].Tok == "xor" && b[0].Tok == "xor" {
		x, y := a[0].V.(TupV), b[0].V.(TupV)
		for i := 0; i < 2; i++ {
			if !SameSegs(st, x.V[i].(SegsV).S, y.V[i].(SegsV).S) {
				return false
			}
		}
		return Key(x.V[2]) == Key(y.V[2]) && st.EntailsEQ(a[0].Len().Sub(b[0].Len())) && st.EntailsEQ(a[0].Lo.Sub(b[0].Lo))
	}
	return SameSegs(st, a, b)
}

// split gives the state for every consistent truth value of the conditions.
func split(st *State, f func(t *State, v []bool), cs ...Cond) {
	var rec func(t *State, v []bool)
	rec = func(t *State, v []bool) {
		if len(v) == len(cs) {
			f(t, v)
			return
		}
		c := cs[len(v)]
		switch t.Decide(c) {
		case 1:
			rec(t, append(v[:len(v):len(v)], true))
			return
		case 0:
			rec(t, append(v[:len(v):len(v)], false))
			return
		}
		u := t.Clone()
		if u.Assume(c) {
			rec(u, append(v[:len(v):len(v)], true))
		}
		u = t.Clone()
		if u.Assume(c.Not()) {
			rec(u, append(v[:len(v):len(v)], false))
		}
	}
	rec(st, nil)
}

// bytesOf is the content of a byte slice value.
func (k *codec) bytesOf(st *State, v Val) ([]Seg, bool) {
	switch v := v.(type) {
	case SliceV:
		return k.w.E.ReadSlice(st, v), true
	case NilV:
		return nil, true
	case StrV:
		return v.S, true
	case IfaceV:
		return k.bytesOf(st, v.V)
	}
	return nil, false
}

func emptyVal(st *State, v Val) bool {
	switch v := v.(type) {
	case NilV:
		return true
	case SliceV:
		return v.Arr == "" || st.EntailsEQ(v.Len)
	case IfaceV:
		return emptyVal(st, v.V)
	}
	return false
}

func bitOf(a string) Bit { return Bit{Or: []string{a}} }

func sameBits(a BVV, b []Bit) bool {
	for i := range b {
		x := Bit{}
		if i < len(a.B) {
			x = a.B[i]
		}
		if x.String() != b[i].String() {
			return false
		}
	}
	return true
}

// isByte compares a byte with the low bits of n, plus the high bit.
func (k *codec) isByte(st *State, v Val, n Lin, high bool) bool {
	if high {
		n2 := n.AddC(128)
		if st.EntailsEQ(k.w.E.Lin(v).Sub(n2)) {
			return true
		}
	} else if st.EntailsEQ(k.w.E.Lin(v).Sub(n)) {
		return true
	}
	got, ok := k.w.E.Bits(v, 8)
	if !ok {
		return false
	}
	want, _ := k.w.E.Bits(IntV{L: n}, 7)
	bs := append(append([]Bit(nil), want.B...), Bit{One: high})
	return sameBits(got, bs)
}

// isBig compares width bytes at position at with the big-endian form of n.
func (k *codec) isBig(st *State, ss []Seg, at, width int64, n Lin) bool {
	part := k.w.E.SubSegs(st, ss, C(at), C(at+width))
	if len(part) == 1 && part[0].Tok == "be" && part[0].Lo.IsC() && part[0].Lo.C == 0 {
		tv := part[0].V.(TupV)
		if w := k.w.E.Lin(tv.V[1]); w.IsC() && w.C == width && st.EntailsEQ(k.w.E.Lin(tv.V[0]).Sub(n)) {
			return true
		}
	}
	want, _ := k.w.E.Bits(IntV{L: n}, 64)
	for i := int64(0); i < width; i++ {
		got, ok := k.w.E.Bits(k.w.E.ElemOf(st, ss, C(at+i), byteT), 8)
		if !ok {
			return false
		}
		for j := int64(0); j < 8; j++ {
			if got.B[j].String() != want.B[8*(width-1-i)+j].String() {
				return false
			}
		}
	}
	return true
}

// header writes the fields of a header and gives its address.
func (k *codec) header(st *State, f map[string]Val) PtrV {
	t := k.w.Type(model.WS, "Header")
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		v, ok := f[fl.Name()]
		if !ok {
			v = k.w.E.Zero(fl.Type())
		}
		k.w.E.Store(st, PtrV{Cell: "new:<h>/" + fl.Name()}, v, fl.Type(), nil)
	}
	keep(st, "h", PtrV{Cell: "new:<h>"})
	return PtrV{Cell: "new:<h>"}
}

func (k *codec) hfield(st *State, h Val, name string) Val {
	t := k.w.Type(model.WS, "Header")
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != name {
			continue
		}
		switch h := h.(type) {
		case StructV:
			return h.F[i]
		case PtrV:
			v, _ := k.w.E.Load(st, PtrV{Cell: h.Cell + "/" + name}, s.Field(i).Type(), nil)
			return v
		}
	}
	panic(Undecided{Msg: "no header field " + name})
}

func maskArr(tok string) ArrV {
	return ArrV{Len: C(4), Elem: byteT, P: []Piece{{Hi: C(4), S: Seg{Tok: tok, Hi: C(4)}}}}
}

// ---- C24 ----

func (k *codec) c24(st0 *State) {
	w := k.w
	k.prop, k.wire = "C24", true
	if k.part > 0 {
		return
	}
	st := st0.Clone()
	ln := At("i(<length>)")
	st.Assume(LE(ln, C(1<<63-1)))
	rsv := BVV{B: make([]Bit, 8)}
	op := BVV{B: make([]Bit, 8)}
	var want0 []Bit
	for i := 0; i < 4; i++ {
		op.B[i] = bitOf(fmt.Sprintf("u8(<op>)#%d", i))
		want0 = append(want0, op.B[i])
	}
	for i := 0; i < 3; i++ {
		rsv.B[i] = bitOf(fmt.Sprintf("u8(<rsv>)#%d", i))
		want0 = append(want0, rsv.B[i])
	}
	fin, masked := Atom("t(<fin>)"), Atom("t(<masked>)")
	h := k.header(st, map[string]Val{"Fin": BoolV{C: fin}, "Masked": BoolV{C: masked}, "Rsv": rsv, "OpCode": op, "Mask": maskArr("<mask>"), "Length": IntV{L: ln}})
	where := "WriteHeader"
	outs := call(w, st, w.Fn(model.WS, "WriteHeader"), h)
	for _, t := range outs {
		split(t, func(t *State, v []bool) {
			neg, small, mid := v[2], v[3], v[4]
			failed := !isNilErr(t.Res[1])
			if neg {
				w.Check(t, failed && emptyVal(t, t.Res[0]), "C24", "impossible-refused", where, "a negative length is encoded")
				return
			}
			if !w.Check(t, !failed, "C24", "encodes", where, "a possible header is refused") {
				return
			}
			ss, ok := k.bytesOf(t, t.Res[0])
			if !w.Check(t, ok, "C24", "encodes", where, "no bytes are given") {
				return
			}
			k.encoded(t, "C24", ss, append(want0[:7:7], Bit{One: v[0]}), v[1], ln, small, mid, where)
		}, fin, masked, GE(ln.Neg().AddC(-1)), LE(ln, C(125)), LE(ln, C(65535)))
	}
	w.Check(st, len(outs) > 0, "C24", "encodes", where, "no header is written")
}

// encoded checks the bytes of a header.
func (k *codec) encoded(t *State, prop string, ss []Seg, want0 []Bit, masked bool, ln Lin, small, mid bool, where string) {
	w := k.w
	hdr := int64(10)
	if small {
		hdr = 2
	} else if mid {
		hdr = 4
	}
	n := hdr
	if masked {
		n += 4
	}
	if !w.Check(t, t.EntailsEQ(SegsLen(ss).AddC(-n)), prop, "size", where, "the header has %s bytes instead of %d", SegsLen(ss), n) {
		return
	}
	b0, ok := w.E.Bits(w.E.ElemOf(t, ss, C(0), byteT), 8)
	w.Check(t, ok && sameBits(b0, want0), prop, "first-byte", where, "the first byte is %s instead of the final bit, the reserved bits and the opcode", Key(w.E.ElemOf(t, ss, C(0), byteT)))
	b1 := w.E.ElemOf(t, ss, C(1), byteT)
	l7 := ln
	if !small {
		l7 = C(127)
		if mid {
			l7 = C(126)
		}
	}
	w.Check(t, k.isByte(t, b1, l7, masked), prop, "second-byte", where, "the second byte is %s for the length %s", Key(b1), l7)
	if !small {
		w.Check(t, k.isBig(t, ss, 2, hdr-2, ln), prop, "extended-length", where, "the extended length is not the length in %d big-endian bytes", hdr-2)
	}
	if masked {
		w.Check(t, SameSegs(t, w.E.SubSegs(t, ss, C(hdr), C(n)), []Seg{{Tok: "<mask>", Hi: C(4)}}), prop, "mask", where, "the mask key does not follow the lengths")
	}
}

// ---- C25, C26 ----

// frame is the content of a buffer that starts with the two given bytes (-1:
// unknown); n is its length, at least 2.
func frame(b0, b1 int) ([]Seg, Lin) {
	n := At("len(<in>)")
	var ss []Seg
	if b0 < 0 {
		ss = append(ss, Seg{Tok: "<in>", Hi: C(1)})
	} else {
		ss = append(ss, Seg{V: cst(int64(b0)), Hi: C(1)})
	}
	ss = append(ss, Seg{V: cst(int64(b1)), Hi: C(1)}, Seg{Tok: "<in>", Lo: C(2), Hi: n})
	return ss, n
}

// wireFrame describes a frame by its second byte.
type wireFrame struct {
	b0, b1 int
	masked bool
	ext    int64
	hdr    int64
	ln     Lin
	n      Lin
	ss     []Seg
}

func newFrame(b0, b1 int) wireFrame {
	f := wireFrame{b0: b0, b1: b1, masked: b1&0x80 != 0}
	f.ss, f.n = frame(b0, b1)
	switch l := b1 & 0x7f; l {
	case 126:
		f.ext = 2
		f.ln = At("be2(<in>@2)")
	case 127:
		f.ext = 8
		f.ln = At("nn(be8(<in>@2))")
	default:
		f.ln = C(int64(l))
	}
	f.hdr = 2 + f.ext
	if f.masked {
		f.hdr += 4
	}
	return f
}

func (f wireFrame) name() string {
	return fmt.Sprintf("second byte 0x%02x", f.b1)
}

// msb is the condition that the length has its top bit set.
func (f wireFrame) msb() Cond {
	if f.ext == 8 {
		return Atom("b(<in>@2)#7")
	}
	return False()
}

// minimal is the condition that the length is encoded in the shortest way.
func (f wireFrame) minimal() Cond {
	switch f.ext {
	case 2:
		return GE(f.ln.AddC(-126))
	case 8:
		return GE(f.ln.AddC(-65536))
	}
	return True()
}

// fields compares the fields of a header with the bytes.
func (k *codec) fields(t *State, h Val, f wireFrame) (string, bool) {
	w := k.w
	var b0 BVV
	if f.b0 >= 0 {
		b0, _ = w.E.Bits(cst(int64(f.b0)), 8)
	} else {
		b0, _ = w.E.Bits(IntV{L: At("b(<in>@0)")}, 8)
	}
	fin, ok := k.hfield(t, h, "Fin").(BoolV)
	if !ok {
		return "the final bit", false
	}
	good := true
	var c Cond
	switch {
	case b0.B[7].One:
		c = True()
	case b0.B[7].IsZero():
		c = False()
	default:
		c = Atom(b0.B[7].Or[0])
	}
	split(t.Clone(), func(u *State, v []bool) {
		want := 0
		if v[0] {
			want = 1
		}
		good = good && u.Decide(fin.C) == want
	}, c)
	if !good {
		return "the final bit", false
	}
	bits := func(name string, lo, hi int) bool {
		v := k.hfield(t, h, name)
		got, ok := w.E.Bits(v, 8)
		if !ok {
			return false
		}
		want := make([]Bit, 8)
		copy(want, b0.B[lo:hi])
		return sameBits(got, want)
	}
	if !bits("Rsv", 4, 7) {
		return "the reserved bits", false
	}
	if !bits("OpCode", 0, 4) {
		return "the opcode", false
	}
	m, ok := k.hfield(t, h, "Masked").(BoolV)
	want := 0
	if f.masked {
		want = 1
	}
	if !ok || t.Decide(m.C) != want {
		return "the mask bit", false
	}
	if !t.EntailsEQ(w.E.Lin(k.hfield(t, h, "Length")).Sub(f.ln)) {
		return "the length", false
	}
	if f.masked && !SameSegs(t, k.maskSegs(t, k.hfield(t, h, "Mask")), []Seg{{Tok: "<in>", Lo: C(f.hdr - 4), Hi: C(f.hdr)}}) {
		return "the mask key", false
	}
	return "", true
}

func (k *codec) headerBuf(st *State) Val {
	st.Heap["new:<hb>"] = ArrV{Len: C(12), Elem: byteT, P: []Piece{{Hi: C(12), S: Seg{Tok: "<hbold>", Hi: C(12)}}}}
	keep(st, "hb", SliceV{Arr: "new:<hb>", Cap: C(12)})
	return SliceV{Arr: "new:<hb>", Cap: C(12)}
}

func (k *codec) c25(st0 *State) {
	w := k.w
	fn := w.Fn(model.WS, "VirtualReadHeader")
	k.prop, k.wire = "C25", true
	notReady, _ := w.E.LoadRaw(st0.Clone(), "glob:"+model.WS+".ErrHeaderNotReady|", types.Universe.Lookup("error").Type())
	isWait := func(t *State) bool {
		return t.Decide(w.E.Equal(t, t.Res[1], notReady, types.Universe.Lookup("error").Type())) == 1
	}
	// fewer than two bytes
	for _, mode := range []byte{'o', 'v'} {
		st := st0.Clone()
		n := At("len(<in>)")
		st.Assume(LE(n, C(1)))
		all := []Seg{{Tok: "<in>", Hi: n}}
		b := k.headerBuf(st)
		r := k.ring(st, all, mode)
		for _, t := range call(w, st, fn, b, r) {
			w.Check(t, isWait(t) && k.clean(t, all), "C25", "incomplete", "VirtualReadHeader", "less than two bytes are taken for a header")
		}
	}
	// run reports nothing in a first try with an unknown first byte
	run := func(b0, b1 int, try bool) bool {
		good := true
		check := func(t *State, ok bool, rule, msg string, a ...interface{}) bool {
			if try {
				good = good && ok
				return ok
			}
			return w.Check(t, ok, "C25", rule, "VirtualReadHeader", msg, a...)
		}
		f := newFrame(b0, b1)
		for _, mode := range []byte{'o', 'v'} {
			st := st0.Clone()
			st.Assume(GE(f.n.AddC(-2)))
			b := k.headerBuf(st)
			r := k.ring(st, f.ss, mode)
			outs := call(w, st, fn, b, r)
			check(st, len(outs) > 0, "decodes", "no outcome for %s", f.name())
			for _, t := range outs {
				split(t, func(t *State, v []bool) {
					whole, more, top := v[0], v[1], v[2]
					wait := isWait(t)
					ok := isNilErr(t.Res[1])
					if wait {
						check(t, k.clean(t, f.ss), "waits-unchanged", "an incomplete header is not left in the buffer (%s)", f.name())
					}
					if !whole {
						check(t, wait, "incomplete", "an incomplete header is not waited for (%s)", f.name())
						return
					}
					// a reader may wait for the first payload byte, or for six bytes
					mayWait := !more && f.b1&0x7f != 0 || t.Decide(GE(f.n.AddC(-6))) != 1
					if top {
						check(t, !ok, "top-bit", "a length with the top bit set is accepted")
						check(t, !wait || mayWait, "top-bit", "a length with the top bit set is not reported")
						return
					}
					if wait {
						check(t, mayWait, "complete", "a complete header is waited for (%s)", f.name())
						return
					}
					if !check(t, ok, "decodes", "a correct header is reported as an error (%s)", f.name()) {
						return
					}
					what, good := k.fields(t, t.Res[0], f)
					check(t, good, "fields", "%s does not follow from the bytes (%s)", what, f.name())
					rg, have := k.left(t)
					check(t, SameSegs(t, have, f.ss) && t.EntailsEQ(rg.VR.AddC(-f.hdr)), "consumes", "%s bytes are read instead of the %d of the header (%s)", rg.VR, f.hdr, f.name())
				}, GE(f.n.AddC(-f.hdr)), GE(f.n.AddC(-f.hdr-1)), f.msb())
			}
		}
		return good
	}
	k.eachSecond(run)
}

// eachSecond runs f for every second byte, with an unknown first byte, or
// where that does not succeed with every first byte.
func (k *codec) eachSecond(run func(b0, b1 int, try bool) bool) {
	for b1 := k.part; b1 < 256; b1 += k.parts {
		q := k.w.Quiet
		k.w.Quiet = true
		ok := run(-1, b1, true)
		k.w.Quiet = q
		if ok {
			run(-1, b1, false)
			continue
		}
		n := k.w.Fails
		for b0 := 0; b0 < 256; b0++ {
			run(b0, b1, false)
			if k.w.Fails > n {
				return // one violation is enough
			}
		}
	}
}

// upgraded is a websocket connection after its handshake.
func (k *codec) upgraded(st0 *State) (*State, Val) {
	w := k.w
	st := st0.Clone()
	outs := call(w, st, w.Fn(model.WSP, "New"), PtrV{Cell: "sym:<nonnil upgrader>"})
	if len(outs) != 1 {
		panic(Undecided{Msg: "websocket.New has several outcomes"})
	}
	st = outs[0]
	p := st.Res[0]
	keep(st, "proto", p)
	old := w.E.Intr["(*"+model.WS+".Upgrader).Upgrade"]
	defer func() {
		if old == nil {
			delete(w.E.Intr, "(*"+model.WS+".Upgrader).Upgrade")
		} else {
			w.E.Intr["(*"+model.WS+".Upgrader).Upgrade"] = old
		}
	}()
	w.E.Intr["(*"+model.WS+".Upgrader).Upgrade"] = func(c *Call) []Out {
		hs := w.E.Zero(w.Type(model.WS, "Handshake"))
		return []Out{{St: c.St, Res: []Val{w.E.OpaqueNamed(c.St, "<response>", types.NewSlice(byteT)), hs, NilV{}}}}
	}
	r := k.ring(st, nil, 'o')
	outs = call(w, st, w.Fn(model.WSP, "Protocol.UnPacket"), p, k.conn, r)
	var res *State
	for _, t := range outs {
		if res == nil {
			res = t
		}
	}
	if res == nil {
		panic(Undecided{Msg: "no state after the handshake"})
	}
	delete(res.G, "closed")
	return res, res.G["keep:proto"]
}

func (k *codec) c26(st0 *State) {
	w := k.w
	st1, p := k.upgraded(st0)
	fn := w.Fn(model.WSP, "Protocol.UnPacket")
	k.prop, k.wire = "C26", true
	where := "websocket.Protocol.UnPacket"
	for _, mode := range []byte{'o', 'v'} {
		st := st1.Clone()
		n := At("len(<in>)")
		st.Assume(LE(n, C(1)))
		all := []Seg{{Tok: "<in>", Hi: n}}
		r := k.ring(st, all, mode)
		for _, t := range call(w, st, fn, p, k.conn, r) {
			w.Check(t, isNilVal(t.Res[0]) && emptyVal(t, t.Res[1]) && k.clean(t, all) && model.GInt(t, "closed") == 0, "C26", "incomplete", where, "something happens before a whole header has arrived")
		}
	}
	run := func(b0, b1 int, try bool) bool {
		good := true
		check := func(t *State, ok bool, rule, msg string, a ...interface{}) bool {
			if try {
				good = good && ok
				return ok
			}
			return w.Check(t, ok, "C26", rule, where, msg, a...)
		}
		f := newFrame(b0, b1)
		for _, mode := range []byte{'o', 'v'} {
			st := st1.Clone()
			st.Assume(GE(f.n.AddC(-2)))
			r := k.ring(st, f.ss, mode)
			outs := call(w, st, fn, p, k.conn, r)
			check(st, len(outs) > 0, "outcome", "no outcome for %s", f.name())
			for _, t := range outs {
				split(t, func(t *State, v []bool) {
					hdr, top, min, whole := v[0], v[1], v[2], v[3]
					none := isNilVal(t.Res[0]) && emptyVal(t, t.Res[1])
					closed := model.GInt(t, "closed") > 0
					formed := f.masked && min && !top
					if hdr && top {
						check(t, none, "impossible-length", "a frame with an impossible length is delivered (%s)", f.name())
						if t.Decide(GE(f.n.AddC(-f.hdr-1))) == 1 {
							check(t, closed, "impossible-length", "the connection stays open after an impossible length (%s)", f.name())
						}
						return
					}
					if !hdr || !whole {
						if check(t, none, "incomplete", "an incomplete frame is delivered (%s)", f.name()) && (!hdr || formed) {
							check(t, !closed, "incomplete", "the connection is closed before the frame is complete (%s)", f.name())
						}
						if !closed {
							check(t, k.clean(t, f.ss), "unconsumed", "an incomplete frame is not left in the buffer as it was (%s)", f.name())
						}
						return
					}
					if none && isNilVal(t.Res[0]) {
						check(t, !formed, "delivered", "a complete frame is not delivered (%s)", f.name())
						if !closed {
							check(t, k.clean(t, f.ss), "unconsumed", "a frame that is not delivered is consumed (%s)", f.name())
						}
						return
					}
					check(t, !closed, "delivered", "the connection is closed for a correct frame (%s)", f.name())
					iv, ok := t.Res[0].(IfaceV)
					if !check(t, ok, "header", "a frame is delivered without its header (%s)", f.name()) {
						return
					}
					hp := iv.V
					what, same := k.fields(t, hp, f)
					check(t, same, "header", "%s of the delivered header does not follow from the bytes (%s)", what, f.name())
					end := f.ln.AddC(f.hdr)
					body := w.E.SubSegs(t, f.ss, C(f.hdr), end)
					if f.masked && !t.EntailsEQ(f.ln) {
						body = xorSegs(body, []Seg{{Tok: "<in>", Lo: C(f.hdr - 4), Hi: C(f.hdr)}}, cst(0))
					}
					got, ok := k.bytesOf(t, t.Res[1])
					check(t, ok && sameText(t, got, body), "payload", "the delivered payload is %s instead of the unmasked payload %s (%s)", Key(SegsV{S: got}), Key(SegsV{S: body}), f.name())
					check(t, k.clean(t, w.E.SubSegs(t, f.ss, end, f.n)), "consumed", "not exactly one frame is consumed (%s)", f.name())
				}, GE(f.n.AddC(-f.hdr)), f.msb(), f.minimal(), GE(f.n.Sub(f.ln).AddC(-f.hdr)))
			}
		}
		return good
	}
	k.eachSecond(run)
}

func isNilVal(v Val) bool {
	_, ok := v.(NilV)
	return ok
}
