// Package absint is an abstract interpreter over Go SSA. It evaluates every
// path of the module's functions over symbolic abstract values (linear forms,
// byte-sequence segments, bit vectors), forks on the finitely many outcomes of
// modelled library calls, and joins at loop heads until a fixpoint is reached.
package absint

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is one coefficient*atom product.
type Term struct {
	A string
	K int64
}

// Lin is a linear form over atoms: sum(K*A) + C. Terms are sorted by atom.
type Lin struct {
	T []Term
	C int64
}

func C(c int64) Lin            { return Lin{C: c} }
func At(a string) Lin          { return Lin{T: []Term{{a, 1}}} }
func (l Lin) IsC() bool        { return len(l.T) == 0 }
func (l Lin) Neg() Lin         { return l.Mul(-1) }
func (l Lin) AddC(c int64) Lin { return Lin{l.T, l.C + c} }

func (l Lin) Mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{C: l.C * k, T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.A, t.K * k}
	}
	return r
}

func (l Lin) Add(m Lin) Lin {
	r := Lin{C: l.C + m.C}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].A < m.T[j].A):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].A < l.T[i].A:
			r.T = append(r.T, m.T[j])
			j++
		default:
			if k := l.T[i].K + m.T[j].K; k != 0 {
				r.T = append(r.T, Term{l.T[i].A, k})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) Sub(m Lin) Lin { return l.Add(m.Neg()) }

func (l Lin) Eq(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

func (l Lin) Coef(a string) int64 {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return 0
}

// Single returns the atom if l is exactly one atom.
func (l Lin) Single() (string, bool) {
	if l.C == 0 && len(l.T) == 1 && l.T[0].K == 1 {
		return l.T[0].A, true
	}
	return "", false
}

func (l Lin) String() string {
	if len(l.T) == 0 {
		return strconv.FormatInt(l.C, 10)
	}
	var b strings.Builder
	for i, t := range l.T {
		if t.K >= 0 && i > 0 {
			b.WriteByte('+')
		}
		switch t.K {
		case 1:
		case -1:
			b.WriteByte('-')
		default:
			fmt.Fprintf(&b, "%d*", t.K)
		}
		b.WriteString(t.A)
	}
	if l.C != 0 {
		fmt.Fprintf(&b, "%+d", l.C)
	}
	return b.String()
}

// Subst replaces atom a by m.
func (l Lin) Subst(a string, m Lin) Lin {
	k := l.Coef(a)
	if k == 0 {
		return l
	}
	r := Lin{C: l.C}
	for _, t := range l.T {
		if t.A != a {
			r.T = append(r.T, t)
		}
	}
	return r.Add(m.Mul(k))
}

// MapAtoms renames atoms.
func (l Lin) MapAtoms(f func(string) string) Lin {
	ch := false
	for _, t := range l.T {
		if f(t.A) != t.A {
			ch = true
			break
		}
	}
	if !ch {
		return l
	}
	r := Lin{C: l.C}
	for _, t := range l.T {
		r = r.Add(Lin{T: []Term{{f(t.A), t.K}}})
	}
	return r
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides an inequality l>=0 by the gcd of its coefficients, rounding the
// constant (integers).
func norm(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	r := Lin{T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.A, t.K / g}
	}
	c := l.C / g
	if l.C%g != 0 && l.C < 0 {
		c--
	}
	r.C = c
	return r
}

const fmLimit = 600

// row is a dense inequality: sum(v[i]*atom i) + c >= 0.
type row struct {
	v []int64
	c int64
	h uint64
}

func (r *row) finish() (constant bool) {
	g := int64(0)
	for _, k := range r.v {
		if k != 0 {
			g = gcd(g, k)
		}
	}
	if g == 0 {
		return true
	}
	if g > 1 {
		for i := range r.v {
			r.v[i] /= g
		}
		c := r.c / g
		if r.c%g != 0 && r.c < 0 {
			c--
		}
		r.c = c
	}
	h := uint64(1469598103934665603)
	for _, k := range r.v {
		h = (h ^ uint64(k)) * 1099511628211
	}
	r.h = h
	return false
}

func sameVec(a, b []int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// system is a set of rows without duplicates (the tightest constant is kept).
type system struct {
	rows []row
	idx  map[uint64][]int32
}

func (s *system) add(r row) (contradiction bool) {
	if r.finish() {
		return r.c < 0
	}
	for _, i := range s.idx[r.h] {
		if sameVec(s.rows[i].v, r.v) {
			if r.c < s.rows[i].c {
				s.rows[i].c = r.c
			}
			return false
		}
	}
	s.idx[r.h] = append(s.idx[r.h], int32(len(s.rows)))
	s.rows = append(s.rows, r)
	return false
}

// infeasible reports whether the conjunction of f>=0 has no integer solution,
// by bounded Fourier-Motzkin elimination. A false answer means "not shown".
func infeasible(fs []Lin) bool {
	at := map[string]int{}
	var names []string
	for _, f := range fs {
		for _, t := range f.T {
			if _, ok := at[t.A]; !ok {
				at[t.A] = 0
				names = append(names, t.A)
			}
		}
	}
	sort.Strings(names)
	for i, a := range names {
		at[a] = i
	}
	n := len(names)
	set := &system{idx: map[uint64][]int32{}}
	buf := make([]int64, n*len(fs))
	for i, f := range fs {
		r := row{v: buf[i*n : i*n+n : i*n+n], c: f.C}
		for _, t := range f.T {
			r.v[at[t.A]] = t.K
		}
		if set.add(r) {
			return true
		}
	}
	// equalities are substituted away first
	for {
		eq := -1
		v := -1
		for i := range set.rows {
			r := &set.rows[i]
			var h uint64 = 1469598103934665603
			for _, k := range r.v {
				h = (h ^ uint64(-k)) * 1099511628211
			}
			hit := false
			for _, j := range set.idx[h] {
				q := &set.rows[j]
				if q.c != -r.c {
					continue
				}
				opp := true
				for x := range q.v {
					if q.v[x] != -r.v[x] {
						opp = false
						break
					}
				}
				if opp {
					hit = true
				}
			}
			if !hit {
				continue
			}
			for x, k := range r.v {
				if k == 1 || k == -1 {
					eq, v = i, x
					break
				}
			}
			if eq >= 0 {
				break
			}
		}
		if eq < 0 {
			break
		}
		e := set.rows[eq]
		next := &system{idx: make(map[uint64][]int32, len(set.rows))}
		for _, r := range set.rows {
			k := r.v[v]
			if k == 0 {
				next.idx[r.h] = append(next.idx[r.h], int32(len(next.rows)))
				next.rows = append(next.rows, r)
				continue
			}
			q := row{v: make([]int64, n)}
			m := k * e.v[v] // e.v[v] is 1 or -1
			for x := range q.v {
				q.v[x] = r.v[x] - m*e.v[x]
			}
			q.c = r.c - m*e.c
			if next.add(q) {
				return true
			}
		}
		set = next
	}
	pos, neg := make([]int, n), make([]int, n)
	for len(set.rows) > 0 {
		// choose the atom with the fewest products
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for _, r := range set.rows {
			for i, k := range r.v {
				if k > 0 {
					pos[i]++
				} else if k < 0 {
					neg[i]++
				}
			}
		}
		best, bc := -1, 1<<30
		for i := range pos {
			if pos[i]+neg[i] == 0 {
				continue
			}
			if c := pos[i] * neg[i]; c < bc {
				best, bc = i, c
			}
		}
		next := &system{idx: make(map[uint64][]int32, len(set.rows))}
		var ps, ns []row
		for _, r := range set.rows {
			switch k := r.v[best]; {
			case k > 0:
				ps = append(ps, r)
			case k < 0:
				ns = append(ns, r)
			default:
				next.idx[r.h] = append(next.idx[r.h], int32(len(next.rows)))
				next.rows = append(next.rows, r)
			}
		}
		if len(ps) == 0 || len(ns) == 0 {
			set = next
			continue
		}
		buf := make([]int64, n*len(ps)*len(ns))
		for _, p := range ps {
			for _, q := range ns {
				kp, kn := p.v[best], -q.v[best]
				r := row{v: buf[:n:n], c: p.c*kn + q.c*kp}
				buf = buf[n:]
				for i := range r.v {
					r.v[i] = p.v[i]*kn + q.v[i]*kp
				}
				if next.add(r) {
					return true
				}
				if len(next.rows) > fmLimit {
					return false
				}
			}
		}
		set = next
	}
	return false
}
