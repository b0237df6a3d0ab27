package absint

import "go/types"

// LoadRaw reads a cell without reporting the access.
func (e *Engine) LoadRaw(s *State, cell string, t types.Type) (Val, bool) {
	f := e.OnAccess
	e.OnAccess = nil
	v := e.loadCell(s, cell, t, nil)
	e.OnAccess = f
	return v, true
}

// Equal is the condition x == y.
func (e *Engine) Equal(s *State, x, y Val, t types.Type) Cond { return e.equal(s, x, y, t) }

// Quo is the truncated quotient of a and a positive constant.
func (e *Engine) Quo(s *State, a Lin, d int64) Lin { return e.quo(s, a, C(d)) }

// Res0 gives a constant string value.
func (c *Call) Res0(x string) Val { return constStr(x) }

// ConstStr is a constant string value.
func ConstStr(x string) Val { return constStr(x) }

// AppendSegs appends a sequence to a slice as the builtin does.
func (e *Engine) AppendSegs(c *Call, base Val, src []Seg, et types.Type) []Out {
	return e.appendSegs(c, base, src, segsLen(src), et)
}

// IsNil is the condition v == nil.
func (e *Engine) IsNil(s *State, v Val) Cond { return e.isNil(s, v) }

// Zero is the zero value of a type.
func (e *Engine) Zero(t types.Type) Val { return e.zero(t) }

// OpaqueNamed is the unknown value with the given name.
func (e *Engine) OpaqueNamed(s *State, name string, t types.Type) Val { return e.opaque(s, name, t) }

// MapLins rewrites the linear forms inside a value.
func MapLins(v Val, f func(Lin) Lin) Val { return mapper{lin: f}.v(v) }

// Bracketed lists the <names> in a text.
func Bracketed(s string) []string { return bracketed(s) }

// EachVal visits a value and everything inside it.
func EachVal(v Val, f func(Val)) { eachVal(v, f) }

// CellRoot is the object a cell belongs to.
func CellRoot(c string) string { return cellRoot(c) }

// Mentions reports whether a name occurs in the state.
func (s *State) Mentions(name string) bool { return s.mentioned(name) }

// Wide tells whether an integer type has 64 bits.
func (e *Engine) Wide(t types.Type) bool { w, _ := intWidth(t); return w == 64 }

// Bits gives the low w bits of an integer value.
func (e *Engine) Bits(v Val, w int) (BVV, bool) { return e.bits(v, w) }

// MkInt turns a bit vector into an integer value.
func MkInt(b BVV) Val { return mkInt(b) }
