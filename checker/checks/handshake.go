package checks

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	. "gevcheck/absint"
	"gevcheck/model"
)

// handshake runs the upgrade of a connection on requests whose structure is
// enumerated and whose values are unknown.
type handshake struct {
	*codec
	up   PtrV
	base *State
	pre  map[string]string // what lies in memory before a call
	lock bool
}

// A line is one header of a request.
type line struct {
	name  string
	value []Seg
}

// A request is what a peer sends.
type request struct {
	method, uri, proto []Seg
	lines              []line
	raw                []Seg // instead of the lines
}

const magic = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"

var text = model.TextSegs

func cat(ss ...[]Seg) []Seg {
	var r []Seg
	for _, s := range ss {
		r = append(r, s...)
	}
	return r
}

func (r request) segs() []Seg {
	out := cat(r.method, text(" "), r.uri, text(" "), r.proto, text("\r\n"))
	if r.method == nil && r.uri == nil {
		out = cat(r.proto, text("\r\n"))
	}
	for _, l := range r.lines {
		if l.name == "" {
			out = cat(out, l.value, text("\r\n"))
			continue
		}
		out = cat(out, text(l.name+": "), l.value, text("\r\n"))
	}
	return cat(out, r.raw, text("\r\n"))
}

// with replaces the value of a header; nil removes it.
func (r request) with(name string, value []Seg, present bool) request {
	var ls []line
	for _, l := range r.lines {
		if l.name == name {
			if !present {
				continue
			}
			l.value = value
		}
		ls = append(ls, l)
	}
	r.lines = ls
	return r
}

// tok makes a token of at least lo bytes that contains none of the given ones.
func (h *handshake) tok(st *State, name string, lo, hi int64, absent string) []Seg {
	n := At("len(" + name + ")")
	if lo == hi {
		n = C(lo)
	} else {
		st.Assume(GE(n.AddC(-lo)))
		if hi >= 0 {
			st.Assume(LE(n, C(hi)))
		}
	}
	var a []string
	for i := 0; i < len(absent); i++ {
		a = append(a, absent[i:i+1])
	}
	if h.w.Absent == nil {
		h.w.Absent = map[string][]string{}
	}
	if old, ok := h.w.Absent[name]; ok && len(old) != len(a) {
		panic(Undecided{Msg: "two kinds of token " + name})
	}
	h.w.Absent[name] = a
	st.Lack[name] = absent
	h.w.E.Pinned[name] = true
	st.Names[name] = true
	ss := []Seg{{Tok: name, Hi: n}}
	keep(st, "tok:"+name, SegsV{S: ss})
	if lo > 0 {
		for _, at := range []Lin{{}, n.AddC(-1)} {
			h.not(st, ss, at, absent+" \t\r\n\v\f")
		}
	}
	return ss
}

// not: the byte at a position is none of the given ones.
func (h *handshake) not(st *State, ss []Seg, at Lin, set string) {
	v := h.w.E.Lin(h.w.E.ElemOf(st, ss, at, byteT))
	for i := 0; i < len(set); i++ {
		st.Assume(EQ(v, C(int64(set[i]))).Not())
	}
}

// others gives texts that stand for every text but spec: its prefixes, its
// extensions, and those that differ at some position for the first time.
func (h *handshake) others(st *State, spec string, fold bool, line string) [][]Seg {
	id := model.Clean(spec)
	var r [][]Seg
	for p := 0; p <= len(spec); p++ {
		if p == len(spec) {
			r = append(r, cat(text(spec), h.tok(st, "<more"+id+">", 1, -1, line)))
			break
		}
		r = append(r, text(spec[:p]))
		set := spec[p : p+1]
		if fold {
			set = strings.ToLower(set) + strings.ToUpper(set)
		}
		b := h.tok(st, fmt.Sprintf("<other%d%s>", p, id), 1, 1, line+":, \t"+set)
		r = append(r, cat(text(spec[:p]), b, h.tok(st, "<rest"+id+">", 1, -1, line)), cat(text(spec[:p]), b))
	}
	return r
}

func (h *handshake) start(st0 *State) {
	w := h.w
	w.E.Unroll = 40
	w.E.Direct = true
	w.E.MaxStates = 4000
	st := st0.Clone()
	st.Lack = map[string]string{}
	h.up = PtrV{Cell: "new:<upgrader>"}
	ut := w.Type(model.WS, "Upgrader")
	w.E.Store(st, h.up, w.E.Zero(ut), ut, nil)
	keep(st, "up", h.up)
	outs := call(w, st, w.Fn(model.WSP, "New"), h.up)
	if len(outs) != 1 {
		panic(Undecided{Msg: "websocket.New has several outcomes"})
	}
	st = outs[0]
	keep(st, "proto", st.Res[0])
	h.base = st
	h.wire = true
	w.LockHook = func(_ *State, l string, _, _ bool, _ *Call) { h.lock = h.lock || !h.private(l) }
}

// set changes a setting of the upgrader.
func (h *handshake) set(st *State, field string, v Val) {
	ut := h.w.Type(model.WS, "Upgrader")
	s := ut.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			h.w.E.Store(st, PtrV{Cell: h.up.Cell + "/" + field}, v, s.Field(i).Type(), nil)
			return
		}
	}
	panic(Undecided{Msg: "the upgrader has no setting " + field})
}

// good is a correct request.
func (h *handshake) good(st *State) request {
	return request{
		method: text("GET"), uri: h.tok(st, "<uri>", 1, -1, "\r\n \t"), proto: text("HTTP/1.1"),
		lines: []line{
			{"Host", h.tok(st, "<host>", 1, -1, "\r\n")},
			{"Upgrade", text("websocket")},
			{"Connection", text("Upgrade")},
			{"Sec-WebSocket-Version", text("13")},
			{"Sec-WebSocket-Key", h.key(st, "<key>")},
		},
	}
}

func (h *handshake) key(st *State, name string) []Seg {
	return h.tok(st, name, 24, 24, "\r\n \t:,")
}

func (h *handshake) unpack(st *State, ss []Seg, mode byte) []*State {
	r := h.ring(st, ss, mode)
	h.lock = false
	h.pre = map[string]string{}
	for c, v := range st.Heap {
		h.pre[c] = Key(v)
	}
	for _, g := range []string{"closed", "bytesof", "pooledback"} {
		delete(st.G, g)
	}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case Undecided:
			s, _ := flat(ss)
			panic(Undecided{Msg: fmt.Sprintf("%s (input %.200q)", x.Msg, s)})
		default:
			panic(x)
		}
	}()
	return call(h.w, st, h.w.Fn(model.WSP, "Protocol.UnPacket"), st.G["keep:proto"], h.conn, r)
}

// flat is the constant text of a reply, with marks for what is unknown.
func flat(ss []Seg) (string, []Seg) {
	var b strings.Builder
	var un []Seg
	for _, x := range ss {
		if s, ok := model.ConstText([]Seg{x}); ok {
			b.WriteString(s)
			continue
		}
		fmt.Fprintf(&b, "\x00%d\x00", len(un))
		un = append(un, x)
	}
	return b.String(), un
}

// status is the status of a reply, 0 if it has none.
func status(s string) int64 {
	if !strings.HasPrefix(s, "HTTP/1.1 ") || len(s) < 13 || s[12] != ' ' {
		return 0
	}
	n := int64(0)
	for _, c := range s[9:12] {
		if c < '0' || c > '9' {
			return 0
		}
		n = n*10 + int64(c-'0')
	}
	return n
}

// isFrame is a complete data frame, to see how the connection takes it.
var isFrame = text("\x81\x82\x01\x02\x03\x04ab")

// upgradedNow tells whether the connection takes frames.
func (h *handshake) upgradedNow(t *State) (all, some bool) {
	u := t.Clone()
	u.Res, u.Trail = nil, nil
	all = true
	q := h.w.Quiet
	h.w.Quiet = true
	pre, lock := h.pre, h.lock
	defer func() { h.w.Quiet, h.pre, h.lock = q, pre, lock }()
	for _, v := range h.unpack(u, isFrame, 'o') {
		if isNilVal(v.Res[0]) {
			all = false
		} else {
			some = true
		}
	}
	return
}

const upgradeFn = "websocket.Protocol.UnPacket"

// accepted: the reply to a correct request.
func (h *handshake) accepted(t *State, what string, key, rest []Seg) bool {
	w := h.w
	if !w.Check(t, isNilVal(t.Res[0]), "C27", "no-frame-before", upgradeFn, "the handshake is delivered as a frame (%s)", what) {
		return false
	}
	out, ok := h.bytesOf(t, t.Res[1])
	s, un := flat(NormSegs(t, out))
	if !w.Check(t, ok && status(s) == 101, "C27", "accepts", upgradeFn, "%s is answered with %q", what, firstLine(s)) {
		return false
	}
	low := strings.ToLower(s)
	for _, x := range []string{"upgrade: websocket\r\n", "connection: upgrade\r\n"} {
		w.Check(t, strings.Contains(low, "\r\n"+x), "C27", "response", upgradeFn, "the response lacks %q (%s)", x, what)
	}
	w.Check(t, strings.HasSuffix(s, "\r\n\r\n") && strings.Count(s, "\r\n\r\n") == 1, "C27", "response", upgradeFn, "the response does not end with one empty line (%s)", what)
	w.Check(t, h.clean(t, rest), "C27", "consumed", upgradeFn, "not exactly the request is consumed (%s)", what)
	w.Check(t, model.GInt(t, "closed")+model.GInt(t, "shutdown") == 0, "C27", "accepts", upgradeFn, "the connection ends although the request is correct (%s)", what)
	all, _ := h.upgradedNow(t)
	w.Check(t, all, "C27", "upgrades", upgradeFn, "the connection does not take frames after its handshake (%s)", what)
	// the proof
	want := Key(SegsV{S: NormSegs(t, []Seg{{Tok: "b64", V: SegsV{S: []Seg{{Tok: "sha1", V: SegsV{S: NormSegs(t, cat(key, text(magic)))}, Hi: C(20)}}}, Hi: C(28)}})})
	proof := false
	for i, x := range un {
		m := fmt.Sprintf("\r\nsec-websocket-accept: \x00%d\x00\r\n", i)
		if strings.Contains(low, m) {
			got := Key(SegsV{S: []Seg{x}})
			proof = w.Check(t, got == want, "C36", "accept", upgradeFn, "the accept value is %s instead of %s (%s)", got, want, what)
		}
	}
	w.Check(t, proof && strings.Count(low, "sec-websocket-accept:") == 1, "C36", "written", upgradeFn, "the response does not have the accept value once (%s)", what)
	roots := map[string]bool{}
	for c, k := range h.pre {
		roots[CellRoot(c)] = true
		if h.private(c) {
			continue
		}
		v, ok := t.Heap[c]
		w.Check(t, h.lock || ok && Key(v) == k, "C36", "own-memory", upgradeFn, "the handshake writes to memory that other handshakes use: %s", c)
	}
	for c := range t.Heap {
		if _, ok := h.pre[c]; !ok && !h.private(c) && (strings.HasPrefix(c, "glob:"+model.Gev) || roots[CellRoot(c)]) {
			w.Check(t, h.lock, "C36", "own-memory", upgradeFn, "the handshake writes to memory that other handshakes use: %s", c)
		}
	}
	if sl, ok := t.Res[1].(SliceV); ok {
		shared := false
		for _, m := range w.Backing(t, sl.Arr) {
			for c := range h.pre {
				shared = shared || c == m || strings.HasPrefix(c, m+"/")
			}
			for _, v := range model.GList(t, "pooledback") {
				p, _ := ConstString(v)
				shared = shared || p == m
			}
		}
		w.Check(t, !shared, "C36", "own-response", upgradeFn, "the response lies in memory that other handshakes use: %v, %v", w.Backing(t, sl.Arr), model.GList(t, "pooledback"))
	}
	return true
}

// private: memory of one connection, or that goroutines may share.
func (h *handshake) private(c string) bool {
	if strings.HasSuffix(c, "/@") {
		return true // an atomic
	}
	for _, p := range []string{connCell, "new:<ring>", "new:<view>", "new:<ub"} {
		if strings.HasPrefix(c, p) {
			return true
		}
	}
	return false
}

func firstLine(s string) string {
	if i := strings.Index(s, "\r\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// refused: the reply to a complete request that is not correct.
func (h *handshake) refused(t *State, what string, rest []Seg, anyStatus bool) {
	w := h.w
	w.Check(t, isNilVal(t.Res[0]), "C27", "no-frame-before", upgradeFn, "a frame is delivered before the handshake (%s)", what)
	out, ok := h.bytesOf(t, t.Res[1])
	s, _ := flat(NormSegs(t, out))
	n := status(s)
	good := n >= 400 && n < 600
	if anyStatus {
		// the user may choose a status
		good = good || strings.HasPrefix(s, "HTTP/1.1 \x00")
	}
	w.Check(t, ok && good, "C27", "refuses", upgradeFn, "a request with %s is answered with %q", what, firstLine(s))
	w.Check(t, !good || strings.Contains(s, "\r\n\r\n"), "C27", "refusal", upgradeFn, "the header of the answer does not end (%s)", what)
	w.Check(t, h.clean(t, rest), "C27", "consumed", upgradeFn, "not exactly the request is consumed (%s)", what)
	_, some := h.upgradedNow(t)
	w.Check(t, !some, "C27", "not-upgraded", upgradeFn, "the connection takes frames although its request was refused (%s)", what)
}

func (h *handshake) try(st *State, req request, what string, ok bool) {
	h.tryIn(st, req, what, ok, 'o')
}

func (h *handshake) tryIn(st *State, req request, what string, ok bool, mode byte) {
	u := st.Clone()
	rest := []Seg{{Tok: "<next>", Hi: At("len(<next>)")}}
	outs := h.unpack(u, cat(req.segs(), rest), mode)
	h.w.Check(u, len(outs) > 0, "C27", "accepts", upgradeFn, "no outcome for %s", what)
	for _, t := range outs {
		left := rest
		if t.EntailsEQ(At("len(<next>)")) {
			left = nil
		}
		if ok {
			h.accepted(t, what, req.key(), left)
		} else {
			h.refused(t, what, left, false)
		}
	}
}

func (r request) key() []Seg {
	for _, l := range r.lines {
		if strings.EqualFold(l.name, "Sec-WebSocket-Key") {
			return l.value
		}
	}
	return nil
}

// correct: every request that has to be accepted.
func (h *handshake) correct(st0 *State) {
	h.start(st0)
	st := h.base.Clone()
	g := h.good(st)
	for _, mode := range []byte{'o', 'v'} {
		h.tryIn(st, g, "a correct request", true, mode)
	}
	// every order
	g.orders(func(r request) { h.try(st, r, "a correct request in another order", true) })
	// the spelling of names and values
	for _, f := range []func(string) string{strings.ToLower, strings.ToUpper, swapCase} {
		r := g
		r.lines = nil
		for _, l := range g.lines {
			r.lines = append(r.lines, line{f(l.name), l.value})
		}
		h.try(st, r, "a correct request with names like "+r.lines[1].name, true)
		for _, n := range []string{"Upgrade", "Connection"} {
			for _, l := range g.lines {
				if s, ok := model.ConstText(l.value); ok && l.name == n {
					h.try(st, g.with(n, text(f(s)), true), "a correct request with the value "+f(s), true)
				}
			}
		}
	}
	for _, v := range []string{"keep-alive, Upgrade", "upgrade,keep-alive"} {
		h.try(st, g.with("Connection", text(v), true), "a correct request with the connection options "+v, true)
	}
	r := g
	r.lines = nil
	for _, l := range g.lines {
		r.lines = append(r.lines, line{l.name, cat(text(" \t "), l.value, text("\t "))})
	}
	u := st.Clone()
	for _, t := range h.unpack(u, r.segs(), 'o') {
		h.accepted(t, "a correct request with blanks around its values", g.key(), nil)
	}
	for _, p := range []string{"HTTP/1.2", "HTTP/1.11"} {
		r := g
		r.proto = text(p)
		h.try(st, r, "a correct request of version "+p, true)
	}
	// other headers, at every place
	for _, n := range []string{"Origin", "X-Other", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Cookie"} {
		for i := 0; i <= len(g.lines); i++ {
			r := g
			r.lines = append(append(append([]line(nil), g.lines[:i]...), line{n, h.tok(st, "<extra>", 1, -1, "\r\n")}), g.lines[i:]...)
			h.try(st, r, "a correct request that also has the header "+n, true)
		}
	}
	// further handshakes, after one that was refused or accepted
	u = st.Clone()
	for _, first := range []request{g.with("Sec-WebSocket-Key", h.key(u, "<key0>"), true), g.with("Upgrade", text("h2c"), true)} {
		for _, t := range h.unpack(u.Clone(), first.segs(), 'o') {
			t.Res, t.Trail = nil, nil
			h.otherConn(t)
			h.try(t, g, "a correct request after that of another connection", true)
		}
	}
}

// orders calls f with the lines of a request in every order.
func (r request) orders(f func(request)) {
	var perm func(rest, got []line)
	perm = func(rest, got []line) {
		if len(rest) == 0 {
			o := r
			o.lines = got
			f(o)
			return
		}
		for i := range rest {
			var o []line
			o = append(append(o, rest[:i]...), rest[i+1:]...)
			perm(o, append(append([]line(nil), got...), rest[i]))
		}
	}
	perm(r.lines, nil)
}

// wrongOrders: one thing is missing or wrong, in every order.
func (h *handshake) wrongOrders(st0 *State) {
	h.start(st0)
	st := h.base.Clone()
	g := h.good(st)
	for _, l := range g.lines {
		g.with(l.name, nil, false).orders(func(r request) { h.try(st, r, "no "+l.name+", in another order", false) })
	}
	for _, x := range []line{
		{"Upgrade", text("h2c")},
		{"Connection", text("close")},
		{"Sec-WebSocket-Version", text("8")},
		{"Sec-WebSocket-Key", h.tok(st, "<shortkey>", 1, 23, "\r\n \t:,")},
	} {
		g.with(x.name, x.value, true).orders(func(r request) { h.try(st, r, "a wrong "+x.name+", in another order", false) })
	}
}

func swapCase(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 0 {
			b[i] = strings.ToLower(s[i : i+1])[0]
		} else {
			b[i] = strings.ToUpper(s[i : i+1])[0]
		}
	}
	return string(b)
}

// otherConn forgets what the connection has stored.
func (h *handshake) otherConn(t *State) {
	for c := range t.Heap {
		if strings.HasPrefix(c, connCell) {
			delete(t.Heap, c)
		}
	}
	for c, v := range h.base.Heap {
		if strings.HasPrefix(c, connCell) {
			t.Heap[c] = v
		}
	}
	delete(t.Heap, "new:<ring>")
	delete(t.Heap, "new:<view>")
	t.GC(h.w.E)
}

// wrong: every kind of request that must not be accepted.
func (h *handshake) wrong(st0 *State) {
	h.start(st0)
	st := h.base.Clone()
	g := h.good(st)
	for m := 1; m < 1<<len(g.lines); m++ {
		r := g
		r.lines = nil
		var names []string
		for i, l := range g.lines {
			if m>>i&1 == 0 {
				r.lines = append(r.lines, l)
			} else {
				names = append(names, l.name)
			}
		}
		h.try(st, r, "no "+strings.Join(names, ", "), false)
	}
	each := func(name string, vs [][]Seg) {
		for _, v := range vs {
			s, _ := flat(v)
			h.try(st, g.with(name, v, true), fmt.Sprintf("the wrong %s %q", name, s), false)
		}
	}
	each("Upgrade", h.others(st, "websocket", true, "\r\n"))
	each("Connection", h.others(st, "upgrade", true, "\r\n,"))
	each("Connection", [][]Seg{text("keep-alive"), text("keep-alive, close"), text("keep-alive upgraded")})
	each("Sec-WebSocket-Version", h.others(st, "13", false, "\r\n"))
	each("Sec-WebSocket-Key", [][]Seg{nil, h.tok(st, "<shortkey>", 1, 23, "\r\n \t:,"), h.tok(st, "<longkey>", 25, -1, "\r\n \t:,")})
	for _, v := range h.others(st, "GET", false, "\r\n ") {
		r := g
		r.method = v
		s, _ := flat(v)
		h.try(st, r, fmt.Sprintf("the method %q", s), false)
	}
	for _, v := range []string{"HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/2.1", "HTTP/0.1", "HTTP/10.1", "HTTP/1.", "HTTP/.1", "HTTP/.11", "HTTP/1.x", "HTTP/x.1", "HTTP/1.:", "HTTP/11", "HTTP/111", "HTTP/1-1", "http/1.1", "HTTPS/1.1", "HTTP/", "HTTP", ""} {
		r := g
		r.proto = text(v)
		h.try(st, r, fmt.Sprintf("the version %q", v), false)
	}
	for p := 0; p < 5; p++ {
		r := g
		spec := "HTTP/"
		r.proto = cat(text(spec[:p]), h.tok(st, fmt.Sprintf("<version%d>", p), 1, 1, "\r\n "+spec[p:p+1]), h.tok(st, "<restversion>", 1, -1, "\r\n "))
		h.try(st, r, fmt.Sprintf("a version that differs at position %d", p), false)
	}
	// lines that are no request line
	for _, v := range []string{"", "GET", "GET /", "GET  HTTP/1.1x", "HTTP/1.1"} {
		r := g
		r.method, r.uri, r.proto = nil, nil, text(v)
		h.try(st, r, fmt.Sprintf("the request line %q", v), false)
	}
	r := g
	r.lines = append([]line{{"", h.tok(st, "<nocolon>", 1, -1, "\r\n:")}}, g.lines...)
	h.try(st, r, "a line that is no header", false)
	h.callbacks(st, g)
}

// callbacks: the settings of the upgrader that may refuse a request.
func (h *handshake) callbacks(st0 *State, g request) {
	w := h.w
	for _, f := range []string{"OnRequest", "OnHost", "OnHeader", "OnBeforeUpgrade"} {
		st := st0.Clone()
		n := "<" + f + ">"
		h.set(st, f, OpqV{N: n})
		st.Bool["nil("+n+")"] = false
		st.Names[n] = true
		w.E.Pinned[n] = true
		r := g
		r.lines = append([]line{{"X-Other", text("value")}}, g.lines...)
		w.User = func(c *Call, kind string) []Out {
			o, ok := c.Fn.(OpqV)
			if !ok || o.N != n {
				return nil
			}
			yes, no := c.St, c.St.Clone()
			model.GSet(yes, "asked", 1)
			model.GSet(no, "asked", 2)
			bad := OpqV{N: "err:<refusal>", T: c.Sig.Results().At(c.Sig.Results().Len() - 1).Type()}
			if c.Sig.Results().Len() == 2 {
				return []Out{{St: yes, Res: []Val{NilV{}, NilV{}}}, {St: no, Res: []Val{NilV{}, bad}}}
			}
			return []Out{{St: yes, Res: []Val{NilV{}}}, {St: no, Res: []Val{bad}}}
		}
		for _, t := range h.unpack(st, r.segs(), 'o') {
			a := model.GInt(t, "asked")
			if !w.Check(t, a > 0, "C27", "asked", upgradeFn, "%s is not asked", f) {
				continue
			}
			if a == 2 {
				h.refused(t, "a refusal by "+f, nil, true)
			} else {
				h.accepted(t, "a correct request that "+f+" accepts", g.key(), nil)
			}
		}
		// what one callback accepts can still be wrong elsewhere
		w.User = func(c *Call, kind string) []Out {
			if o, ok := c.Fn.(OpqV); !ok || o.N != n {
				return nil
			}
			res := []Val{NilV{}}
			if c.Sig.Results().Len() == 2 {
				res = append(res, NilV{})
			}
			return []Out{{St: c.St, Res: res}}
		}
		for _, x := range []line{
			{"Upgrade", text("h2c")},
			{"Connection", text("close")},
			{"Sec-WebSocket-Version", text("8")},
			{"Sec-WebSocket-Key", h.tok(st, "<shortkey>", 1, 23, "\r\n \t:,")},
		} {
			b := r.with(x.name, x.value, true)
			for i := range b.lines {
				for _, back := range []bool{false, true} {
					o := b
					o.lines = append(append([]line(nil), b.lines[i:]...), b.lines[:i]...)
					if back {
						slices.Reverse(o.lines)
					}
					h.try(st, o, "a wrong "+x.name+" although "+f+" accepts", false)
				}
			}
		}
		if f == "OnRequest" {
			o := r
			o.method = text("POST")
			h.try(st, o, "a wrong method although "+f+" accepts", false)
			o = r
			o.proto = text("HTTP/1.0")
			h.try(st, o, "a wrong version although "+f+" accepts", false)
		}
		w.User = nil
	}
}

// partial: every request that is not complete yet.
func (h *handshake) partial(st0 *State) {
	h.start(st0)
	w := h.w
	st := h.base.Clone()
	g := h.good(st)
	try := func(ss []Seg, mode byte, what string) {
		for _, t := range h.unpack(st.Clone(), ss, mode) {
			none := isNilVal(t.Res[0]) && emptyVal(t, t.Res[1])
			w.Check(t, none, "C27", "incomplete", upgradeFn, "an incomplete request is answered (%s)", what)
			w.Check(t, h.clean(t, ss), "C27", "unconsumed", upgradeFn, "an incomplete request is not left in the buffer as it was (%s)", what)
			w.Check(t, model.GInt(t, "closed")+model.GInt(t, "shutdown") == 0, "C27", "incomplete", upgradeFn, "the connection ends before its request is complete (%s)", what)
			_, some := h.upgradedNow(t)
			w.Check(t, !some, "C27", "no-frame-before", upgradeFn, "the connection takes frames before its request is complete (%s)", what)
			t.Res, t.Trail = nil, nil
			delete(t.Heap, "new:<ring>")
			delete(t.Heap, "new:<view>")
			if mode == 'o' {
				h.try(t, g, "a correct request that arrives in parts", true)
			}
		}
	}
	for _, mode := range []byte{'o', 'v'} {
		var pre []Seg
		for _, x := range g.segs() {
			s, ok := model.ConstText([]Seg{x})
			if !ok {
				try(pre, mode, "up to "+x.Tok)
				y := x
				cut := "<cut" + x.Tok[1:]
				if y.Len().IsC() {
					y.Hi = C(1)
				} else {
					_ = cut
					y.Hi = x.Lo.AddC(1)
				}
				try(cat(pre, []Seg{y}), mode, "up to within "+x.Tok)
				pre = cat(pre, []Seg{x})
				continue
			}
			for i := 0; i < len(s); i++ {
				if i == 0 || strings.ContainsAny(s[max(0, i-1):i+1], "\r\n:") {
					try(cat(pre, text(s[:i])), mode, fmt.Sprintf("up to %q", s[:i]))
				}
			}
			pre = cat(pre, text(s))
		}
		// and any text without an empty line
		name := "<noise" + string(mode) + ">"
		u := h.tok(st, name, 0, -1, "")
		w.Absent[name] = []string{"\r\n\r\n"}
		try(u, mode, "any text")
	}
}
