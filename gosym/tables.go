package main

import (
	"go/token"
	"math"
	"math/big"
)

// Tables: a real term whose only free variable is an integer with a small
// domain is a finite function of it.  Floating-point operations on such terms
// are computed point by point with real float64 arithmetic, so no rounding
// relaxation is needed and no path is forked.

type table struct {
	v  *Term // integer variable
	lo int64
	f  []float64
}

const tabMax = 640

// vars lists the free variables of t (at most three, then ok is false).
func (m *Machine) vars(t *Term) ([]*Term, bool) {
	if t.isConst {
		return nil, true
	}
	if t.fvDone {
		if t.fvMany {
			return nil, false
		}
		return m.unfixed(t.fv), true
	}
	var out []*Term
	ok := true
	add := func(v *Term) {
		for _, o := range out {
			if o == v {
				return
			}
		}
		out = append(out, v)
	}
	if t.op == "var" {
		out = []*Term{t}
	} else {
		for _, a := range t.args {
			if a.isConst {
				continue
			}
			m.vars(a)
			if a.fvMany {
				ok = false
				break
			}
			for _, v := range a.fv {
				add(v)
			}
			if len(out) > 3 {
				ok = false
				break
			}
		}
	}
	t.fvDone, t.fvMany = true, !ok
	if ok {
		t.fv = out
	}
	if !ok {
		return nil, false
	}
	return m.unfixed(out), true
}

func (m *Machine) unfixed(vs []*Term) []*Term {
	if len(m.fixed) == 0 {
		return vs
	}
	var out []*Term
	for _, v := range vs {
		if m.fixed[v] == nil {
			out = append(out, v)
		}
	}
	return out
}

func domain(v *Term) int64 {
	if v.sort != SInt || v.lo == nil || v.hi == nil {
		return -1
	}
	d := new(big.Int).Sub(v.hi, v.lo)
	if !d.IsInt64() || d.Int64() >= 1<<30 {
		return -1
	}
	return d.Int64() + 1
}

type tval struct {
	r *big.Rat
	b bool
}

// evalAt evaluates t with v = x (nil v: no free variable left).
func (m *Machine) evalAt(t *Term, v *Term, x int64, memo map[*Term]tval) (tval, bool) {
	if t.isConst {
		switch t.sort {
		case SBool:
			return tval{b: t.b}, true
		case SInt:
			return tval{r: new(big.Rat).SetInt(t.i)}, true
		}
		return tval{r: t.r}, true
	}
	if r, ok := memo[t]; ok {
		return r, true
	}
	if t.tab != nil && t.tab.v == v {
		f := t.tab.f[x-t.tab.lo]
		r := tval{r: new(big.Rat).SetFloat64(f)}
		memo[t] = r
		return r, r.r != nil
	}
	if t.op == "var" {
		if t == v {
			return tval{r: new(big.Rat).SetInt64(x)}, true
		}
		if f := m.fixed[t]; f != nil {
			return tval{r: f}, true
		}
		return tval{}, false
	}
	var as []tval
	if t.op == "ite" {
		c, ok := m.evalAt(t.args[0], v, x, memo)
		if !ok {
			return c, false
		}
		k := 2
		if c.b {
			k = 1
		}
		r, ok := m.evalAt(t.args[k], v, x, memo)
		if ok {
			memo[t] = r
		}
		return r, ok
	}
	for _, a := range t.args {
		r, ok := m.evalAt(a, v, x, memo)
		if !ok {
			return r, false
		}
		as = append(as, r)
	}
	var r tval
	switch t.op {
	case "+":
		s := new(big.Rat)
		for _, a := range as {
			s.Add(s, a.r)
		}
		r.r = s
	case "-":
		s := new(big.Rat).Set(as[0].r)
		if len(as) == 1 {
			s.Neg(s)
		}
		for _, a := range as[1:] {
			s.Sub(s, a.r)
		}
		r.r = s
	case "*":
		s := new(big.Rat).SetInt64(1)
		for _, a := range as {
			s.Mul(s, a.r)
		}
		r.r = s
	case "div", "mod":
		if as[1].r.Sign() == 0 || !as[0].r.IsInt() || !as[1].r.IsInt() {
			return r, false
		}
		q, md := new(big.Int).DivMod(as[0].r.Num(), as[1].r.Num(), new(big.Int))
		if t.op == "div" {
			r.r = new(big.Rat).SetInt(q)
		} else {
			r.r = new(big.Rat).SetInt(md)
		}
	case "to_real":
		r = as[0]
	case "to_int":
		r.r = new(big.Rat).SetInt(ratFloor(as[0].r))
	case "<=":
		r.b = as[0].r.Cmp(as[1].r) <= 0
	case "<":
		r.b = as[0].r.Cmp(as[1].r) < 0
	case "=":
		if as[0].r != nil {
			r.b = as[0].r.Cmp(as[1].r) == 0
		} else {
			r.b = as[0].b == as[1].b
		}
	case "not":
		r.b = !as[0].b
	case "and":
		r.b = true
		for _, a := range as {
			r.b = r.b && a.b
		}
	case "or":
		for _, a := range as {
			r.b = r.b || a.b
		}
	default:
		return r, false
	}
	memo[t] = r
	return r, true
}

// tabOver tabulates t over v.
func (m *Machine) tabOver(t *Term, v *Term) ([]float64, bool) {
	if t.tab != nil && t.tab.v == v {
		return t.tab.f, true
	}
	n := domain(v)
	lo := v.lo.Int64()
	out := make([]float64, n)
	if t.isConst {
		f, exact := t.r.Float64()
		if !exact {
			return nil, false
		}
		for i := range out {
			out[i] = f
		}
		return out, true
	}
	for i := range out {
		r, ok := m.evalAt(t, v, lo+int64(i), map[*Term]tval{})
		if !ok || r.r == nil {
			return nil, false
		}
		f, exact := r.r.Float64()
		if !exact {
			return nil, false
		}
		out[i] = f
	}
	return out, true
}

// commonVar finds the single small integer variable the terms depend on; with
// two of them the smaller is enumerated (forking the path).
func (m *Machine) commonVar(ts ...*Term) (*Term, bool) {
	for round := 0; round < 3; round++ {
		var vs []*Term
		for _, t := range ts {
			x, ok := m.vars(t)
			if !ok {
				return nil, false
			}
		next:
			for _, v := range x {
				for _, o := range vs {
					if o == v {
						continue next
					}
				}
				vs = append(vs, v)
			}
		}
		for _, v := range vs {
			if domain(v) < 0 {
				return nil, false
			}
		}
		if len(vs) == 0 {
			return nil, true
		}
		if len(vs) == 1 {
			if domain(vs[0]) <= tabMax {
				return vs[0], true
			}
			return nil, false
		}
		small := vs[0]
		for _, v := range vs {
			if domain(v) < domain(small) {
				small = v
			}
		}
		if domain(small) > 130 || len(vs) > 2 {
			return nil, false
		}
		m.fix(small)
	}
	return nil, false
}

func (m *Machine) fix(v *Term) {
	r := m.concretize(v)
	if m.fixed == nil {
		m.fixed = map[*Term]*big.Rat{}
	}
	m.fixed[v] = r
}

// tabOp applies a float operation point by point; nil if it cannot.
func (m *Machine) tabOp(op func(x, y float64) float64, a, b *Term) value {
	if a.isConst && b.isConst {
		return nil
	}
	v, ok := m.commonVar(a, b)
	if !ok {
		return nil
	}
	if v == nil {
		x, ok1 := m.evalAt(a, nil, 0, map[*Term]tval{})
		y, ok2 := m.evalAt(b, nil, 0, map[*Term]tval{})
		if !ok1 || !ok2 {
			return nil
		}
		f, e1 := x.r.Float64()
		g, e2 := y.r.Float64()
		if !e1 || !e2 {
			return nil
		}
		return op(f, g)
	}
	xs, ok1 := m.tabOver(a, v)
	ys, ok2 := m.tabOver(b, v)
	if !ok1 || !ok2 {
		return nil
	}
	out := make([]float64, len(xs))
	for i := range xs {
		out[i] = op(xs[i], ys[i])
		if math.IsNaN(out[i]) || math.IsInf(out[i], 0) {
			return nil
		}
	}
	return m.mkTab(v, v.lo.Int64(), out)
}

// mkTab builds the term of a table; a constant table is its constant.
func (m *Machine) mkTab(v *Term, lo int64, f []float64) value {
	tt := m.tt
	same := true
	for _, x := range f[1:] {
		if x != f[0] {
			same = false
		}
	}
	if same {
		return f[0]
	}
	allInt := true
	for _, x := range f {
		if x != math.Trunc(x) || math.Abs(x) >= 1<<53 {
			allInt = false
		}
	}
	var build func(i, j int) *Term
	build = func(i, j int) *Term {
		eq := true
		for k := i + 1; k < j; k++ {
			if f[k] != f[i] {
				eq = false
				break
			}
		}
		if eq {
			if allInt {
				return tt.int64C(int64(f[i]))
			}
			return tt.realC(f[i])
		}
		mid := (i + j) / 2
		return tt.ite(tt.mk("<=", SBool, v, tt.int64C(lo+int64(mid)-1)), build(i, mid), build(mid, j))
	}
	t := build(0, len(f))
	if allInt {
		t = tt.toReal(t)
	}
	if t.tab == nil {
		t.tab = &table{v, lo, f}
	}
	return t
}

// tabPred is the condition that a pointwise predicate holds.
func (m *Machine) tabPred(v *Term, lo int64, n int, p func(i int) bool) value {
	tt := m.tt
	var alts []*Term
	for i := 0; i < n; {
		if !p(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && p(j+1) {
			j++
		}
		var c []*Term
		if i > 0 {
			c = append(c, tt.mk("<=", SBool, tt.int64C(lo+int64(i)), v))
		}
		if j < n-1 {
			c = append(c, tt.mk("<=", SBool, v, tt.int64C(lo+int64(j))))
		}
		alts = append(alts, tt.and(c...))
		i = j + 1
	}
	return m.norm(tt.or(alts...))
}

// tabCmp compares two terms of which at least one is a table.
func (m *Machine) tabCmp(op token.Token, a, b *Term) (value, bool) {
	var v *Term
	if a.tab != nil {
		v = a.tab.v
	} else if b.tab != nil {
		v = b.tab.v
	} else {
		return nil, false
	}
	for _, t := range []*Term{a, b} {
		vs, ok := m.vars(t)
		if !ok || len(vs) > 1 || len(vs) == 1 && vs[0] != v {
			return nil, false
		}
	}
	xs, ok1 := m.tabOver(a, v)
	ys, ok2 := m.tabOver(b, v)
	if !ok1 || !ok2 {
		return nil, false
	}
	return m.tabPred(v, v.lo.Int64(), len(xs), func(i int) bool {
		switch op {
		case token.LSS:
			return xs[i] < ys[i]
		case token.LEQ:
			return xs[i] <= ys[i]
		case token.GTR:
			return xs[i] > ys[i]
		case token.GEQ:
			return xs[i] >= ys[i]
		case token.EQL:
			return xs[i] == ys[i]
		}
		return xs[i] != ys[i]
	}), true
}

// tabFn maps a table through a function of one float.
func (m *Machine) tabFn(t *Term, f func(float64) float64) (value, bool) {
	if t.tab == nil || m.fixed[t.tab.v] != nil {
		return nil, false
	}
	out := make([]float64, len(t.tab.f))
	for i, x := range t.tab.f {
		out[i] = f(x)
		if math.IsNaN(out[i]) || math.IsInf(out[i], 0) {
			return nil, false
		}
	}
	return m.mkTab(t.tab.v, t.tab.lo, out), true
}

// exactly evaluates t if every variable in it is pinned down on this path.
func (m *Machine) exactly(t *Term) *Term {
	if t.isConst || len(m.fixed) == 0 {
		return t
	}
	vs, ok := m.vars(t)
	if !ok || len(vs) > 0 {
		return t
	}
	r, ok := m.evalAt(t, nil, 0, map[*Term]tval{})
	if !ok {
		return t
	}
	switch t.sort {
	case SBool:
		return m.tt.boolC(r.b)
	case SInt:
		return m.tt.intC(r.r.Num())
	}
	return m.tt.ratC(r.r)
}
