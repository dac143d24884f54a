package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- terms

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Real"}[s] }

const noGrid = -1 << 30

// Term is a node of a hash-consed formula DAG. Ints carry an interval
// [lo,hi]; reals carry a float interval and a grid exponent g (the value is a
// multiple of 2^-g) which together decide when float64 arithmetic is exact.
type Term struct {
	id   int
	op   string
	sort Sort
	args []*Term
	name string // for variables
	// constants
	isConst bool
	b       bool
	i       *big.Int
	r       *big.Rat
	// metadata
	lo, hi   *big.Int // ints, nil = unbounded
	rlo, rhi float64  // reals
	grid     int      // reals
	quot     *Term    // exact quotient this rounded term stands for
	unitRng  *Term
	emitted  bool
	tab      *table
	fv       []*Term
	fvDone   bool
	fvMany   bool
}

type termTable struct {
	emittedLog []*Term
	byKey      map[string]*Term
	next       int
}

func newTermTable() *termTable { return &termTable{byKey: map[string]*Term{}} }

func (tt *termTable) mk(op string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.byKey[k]; ok {
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, sort: sort, args: args, grid: noGrid, rlo: math.Inf(-1), rhi: math.Inf(1)}
	tt.byKey[k] = t
	return t
}

func (tt *termTable) boolC(b bool) *Term {
	t := tt.mk("b"+strconv.FormatBool(b), SBool)
	t.isConst, t.b = true, b
	return t
}

func (tt *termTable) intC(v *big.Int) *Term {
	t := tt.mk("i"+v.String(), SInt)
	if !t.isConst {
		t.isConst, t.i = true, new(big.Int).Set(v)
		t.lo, t.hi = t.i, t.i
	}
	return t
}
func (tt *termTable) int64C(v int64) *Term { return tt.intC(big.NewInt(v)) }

func (tt *termTable) realC(f float64) *Term {
	t := tt.mk("r"+strconv.FormatFloat(f, 'g', -1, 64), SReal)
	if !t.isConst {
		t.isConst = true
		if f == 0 {
			f = 0
		}
		t.r = new(big.Rat)
		t.r.SetFloat64(f)
		t.rlo, t.rhi = f, f
		t.grid = gridOf(f)
	}
	return t
}

func (tt *termTable) ratC(r *big.Rat) *Term {
	t := tt.mk("q"+r.String(), SReal)
	if !t.isConst {
		t.isConst, t.r = true, r
		f, exact := r.Float64()
		if exact {
			t.rlo, t.rhi = f, f
			t.grid = gridOf(f)
		} else {
			t.rlo, t.rhi = math.Nextafter(f, math.Inf(-1)), math.Nextafter(f, math.Inf(1))
		}
	}
	return t
}

// gridOf returns g such that f is an odd multiple of 2^-g (0 for 0).
func gridOf(f float64) int {
	if f == 0 || math.IsInf(f, 0) || math.IsNaN(f) {
		return 0
	}
	fr, e := math.Frexp(f)
	m := int64(math.Abs(fr) * (1 << 53))
	e -= 53
	for m&1 == 0 {
		m >>= 1
		e++
	}
	return -e
}

func (tt *termTable) fresh(name string, s Sort) *Term {
	tt.next++
	t := &Term{id: tt.next, op: "var", sort: s, name: name, grid: noGrid, rlo: math.Inf(-1), rhi: math.Inf(1)}
	return t
}

// ---------------------------------------------------------------- booleans

func (tt *termTable) not(a *Term) *Term {
	if a.isConst {
		return tt.boolC(!a.b)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return tt.mk("not", SBool, a)
}
func (tt *termTable) and(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isConst {
			if !a.b {
				return a
			}
			continue
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return tt.boolC(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("and", SBool, out...)
}
func (tt *termTable) or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isConst {
			if a.b {
				return a
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return tt.boolC(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("or", SBool, out...)
}
func (tt *termTable) ite(c, a, b *Term) *Term {
	if c.isConst {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isConst && b.isConst {
			if a.b {
				return c
			}
			return tt.not(c)
		}
		return tt.or(tt.and(c, a), tt.and(tt.not(c), b))
	}
	t := tt.mk("ite", a.sort, c, a, b)
	switch a.sort {
	case SInt:
		t.lo, t.hi = minB(a.lo, b.lo), maxB(a.hi, b.hi)
	case SReal:
		t.rlo, t.rhi = math.Min(a.rlo, b.rlo), math.Max(a.rhi, b.rhi)
		if a.grid != noGrid && b.grid != noGrid {
			t.grid = maxI(a.grid, b.grid)
		}
	}
	return t
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int { // nil = -inf
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int { // nil = +inf
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ---------------------------------------------------------------- integers

func (tt *termTable) iadd(a, b *Term) *Term {
	if a.isConst && b.isConst {
		return tt.intC(new(big.Int).Add(a.i, b.i))
	}
	if a.isConst && a.i.Sign() == 0 {
		return b
	}
	if b.isConst && b.i.Sign() == 0 {
		return a
	}
	// (x + c1) + c2
	if b.isConst && a.op == "+" && len(a.args) == 2 && a.args[1].isConst {
		return tt.iadd(a.args[0], tt.intC(new(big.Int).Add(a.args[1].i, b.i)))
	}
	if a.isConst {
		a, b = b, a
	}
	t := tt.mk("+", SInt, a, b)
	if a.lo != nil && b.lo != nil {
		t.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		t.hi = new(big.Int).Add(a.hi, b.hi)
	}
	return t
}
func (tt *termTable) ineg(a *Term) *Term { return tt.imul(tt.int64C(-1), a) }
func (tt *termTable) isub(a, b *Term) *Term {
	if a == b {
		return tt.int64C(0)
	}
	// (x + y) - x , (x+y)-y
	if a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if b.isConst {
		return tt.iadd(a, tt.intC(new(big.Int).Neg(b.i)))
	}
	if a.isConst && b.isConst {
		return tt.intC(new(big.Int).Sub(a.i, b.i))
	}
	t := tt.mk("-", SInt, a, b)
	if a.lo != nil && b.hi != nil {
		t.lo = new(big.Int).Sub(a.lo, b.hi)
	}
	if a.hi != nil && b.lo != nil {
		t.hi = new(big.Int).Sub(a.hi, b.lo)
	}
	return t
}
func (tt *termTable) imul(a, b *Term) *Term {
	if a.isConst && b.isConst {
		return tt.intC(new(big.Int).Mul(a.i, b.i))
	}
	if b.isConst {
		a, b = b, a
	}
	if a.isConst {
		if a.i.Sign() == 0 {
			return a
		}
		if a.i.IsInt64() && a.i.Int64() == 1 {
			return b
		}
		if b.op == "*" && b.args[0].isConst {
			return tt.imul(tt.intC(new(big.Int).Mul(a.i, b.args[0].i)), b.args[1])
		}
	}
	t := tt.mk("*", SInt, a, b)
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		t.lo, t.hi = nil, nil
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if t.lo == nil || p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if t.hi == nil || p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	}
	return t
}

// floor division / euclidean mod by a positive term
func (tt *termTable) idivFloor(a, b *Term) *Term {
	if a.isConst && b.isConst && b.i.Sign() > 0 {
		q := new(big.Int)
		r := new(big.Int)
		q.DivMod(a.i, b.i, r)
		return tt.intC(q)
	}
	if b.isConst && b.i.IsInt64() && b.i.Int64() == 1 {
		return a
	}
	if b.isConst && b.i.Sign() > 0 && a.op == "*" && a.args[0].isConst {
		if q, r := new(big.Int).QuoRem(a.args[0].i, b.i, new(big.Int)); r.Sign() == 0 {
			return tt.imul(tt.intC(q), a.args[1])
		}
	}
	t := tt.mk("div", SInt, a, b)
	if b.isConst && b.i.Sign() > 0 {
		if a.lo != nil {
			t.lo = new(big.Int).Div(a.lo, b.i)
		}
		if a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, b.i)
		}
	} else if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 {
		t.lo, t.hi = big.NewInt(0), a.hi
	}
	return t
}
func (tt *termTable) imodEuc(a, b *Term) *Term {
	if a.isConst && b.isConst && b.i.Sign() > 0 {
		return tt.intC(new(big.Int).Mod(a.i, b.i))
	}
	if b.isConst && b.i.Sign() > 0 && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.i) < 0 {
		return a
	}
	if b.isConst && b.i.Sign() > 0 && a.op == "*" && a.args[0].isConst && new(big.Int).Rem(a.args[0].i, b.i).Sign() == 0 {
		return tt.int64C(0)
	}
	t := tt.mk("mod", SInt, a, b)
	if b.hi != nil {
		t.lo = big.NewInt(0)
		t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
	}
	return t
}

func (tt *termTable) ilt(a, b *Term) *Term { return tt.cmpI("<", a, b) }
func (tt *termTable) ile(a, b *Term) *Term { return tt.cmpI("<=", a, b) }
func (tt *termTable) cmpI(op string, a, b *Term) *Term {
	if a == b {
		return tt.boolC(op == "<=")
	}
	if op == "<" {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
			return tt.boolC(true)
		}
		if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) >= 0 {
			return tt.boolC(false)
		}
		// canonical: a<b  ==  not (b<=a)
		return tt.not(tt.mk("<=", SBool, b, a))
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return tt.boolC(true)
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return tt.boolC(false)
	}
	return tt.mk("<=", SBool, a, b)
}

func (tt *termTable) eq(a, b *Term) *Term {
	if a == b {
		return tt.boolC(true)
	}
	if a.sort != b.sort {
		if a.sort == SInt && b.sort == SReal {
			a = tt.toReal(a)
		} else if a.sort == SReal && b.sort == SInt {
			b = tt.toReal(b)
		} else {
			panic("eq sorts")
		}
	}
	switch a.sort {
	case SBool:
		if a.isConst && b.isConst {
			return tt.boolC(a.b == b.b)
		}
		if a.isConst {
			a, b = b, a
		}
		if b.isConst {
			if b.b {
				return a
			}
			return tt.not(a)
		}
	case SInt:
		if a.isConst && b.isConst {
			return tt.boolC(a.i.Cmp(b.i) == 0)
		}
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 || a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
			return tt.boolC(false)
		}
		if a.op == "ite" && b.isConst && a.args[1].isConst && a.args[2].isConst {
			return tt.ite(a.args[0], tt.eq(a.args[1], b), tt.eq(a.args[2], b))
		}
	case SReal:
		if a.isConst && b.isConst {
			return tt.boolC(a.r.Cmp(b.r) == 0)
		}
		if a.rhi < b.rlo || a.rlo > b.rhi {
			return tt.boolC(false)
		}
		if a.op == "to_real" && b.op == "to_real" {
			return tt.eq(a.args[0], b.args[0])
		}
		if a.op == "to_real" && b.isConst {
			if !b.r.IsInt() {
				return tt.boolC(false)
			}
			return tt.eq(a.args[0], tt.intC(b.r.Num()))
		}
		if b.op == "to_real" && a.isConst {
			return tt.eq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk("=", SBool, a, b)
}

// ---------------------------------------------------------------- reals

func (tt *termTable) toReal(a *Term) *Term {
	if a.isConst {
		return tt.ratC(new(big.Rat).SetInt(a.i))
	}
	if a.op == "to_int" && a.args[0].grid != noGrid && a.args[0].grid <= 0 {
		return a.args[0]
	}
	t := tt.mk("to_real", SReal, a)
	t.grid = 0
	if a.lo != nil {
		f, _ := new(big.Float).SetInt(a.lo).Float64()
		if ff := new(big.Float).SetFloat64(f); ff.Cmp(new(big.Float).SetInt(a.lo)) != 0 {
			f = math.Nextafter(f, math.Inf(-1))
		}
		t.rlo = f
	}
	if a.hi != nil {
		f, _ := new(big.Float).SetInt(a.hi).Float64()
		if ff := new(big.Float).SetFloat64(f); ff.Cmp(new(big.Float).SetInt(a.hi)) != 0 {
			f = math.Nextafter(f, math.Inf(1))
		}
		t.rhi = f
	}
	return t
}

// floor as Int
func (tt *termTable) toInt(a *Term) *Term {
	if a.isConst {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.r.Num(), a.r.Denom(), m)
		return tt.intC(q)
	}
	if a.op == "to_real" {
		return a.args[0]
	}
	// floor(x + c) with integer c, where x is to_real: handled by solver
	t := tt.mk("to_int", SInt, a)
	if !math.IsInf(a.rlo, 0) {
		t.lo, _ = big.NewFloat(math.Floor(a.rlo)).Int(nil)
	}
	if !math.IsInf(a.rhi, 0) {
		t.hi, _ = big.NewFloat(math.Floor(a.rhi)).Int(nil)
	}
	return t
}

func (tt *termTable) radd(a, b *Term) *Term {
	if a.isConst && b.isConst {
		return tt.ratC(new(big.Rat).Add(a.r, b.r))
	}
	if a.isConst && a.r.Sign() == 0 {
		return b
	}
	if b.isConst && b.r.Sign() == 0 {
		return a
	}
	if a.op == "to_real" && b.op == "to_real" {
		return tt.toReal(tt.iadd(a.args[0], b.args[0]))
	}
	if a.op == "to_real" && b.isConst && b.r.IsInt() {
		return tt.toReal(tt.iadd(a.args[0], tt.intC(b.r.Num())))
	}
	if b.op == "to_real" && a.isConst && a.r.IsInt() {
		return tt.toReal(tt.iadd(b.args[0], tt.intC(a.r.Num())))
	}
	t := tt.mk("+", SReal, a, b)
	t.rlo, t.rhi = dn(a.rlo+b.rlo), up(a.rhi+b.rhi)
	if a.grid != noGrid && b.grid != noGrid {
		t.grid = maxI(a.grid, b.grid)
	}
	return t
}
func (tt *termTable) rsub(a, b *Term) *Term {
	if a == b {
		return tt.realC(0)
	}
	if a.op == "+" && a.sort == SReal && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if a.isConst && b.isConst {
		return tt.ratC(new(big.Rat).Sub(a.r, b.r))
	}
	if b.isConst {
		return tt.radd(a, tt.ratC(new(big.Rat).Neg(b.r)))
	}
	if a.op == "to_real" && b.op == "to_real" {
		return tt.toReal(tt.isub(a.args[0], b.args[0]))
	}
	if a.isConst && a.r.IsInt() && b.op == "to_real" {
		return tt.toReal(tt.isub(tt.intC(a.r.Num()), b.args[0]))
	}
	t := tt.mk("-", SReal, a, b)
	t.rlo, t.rhi = dn(a.rlo-b.rhi), up(a.rhi-b.rlo)
	if a.grid != noGrid && b.grid != noGrid {
		t.grid = maxI(a.grid, b.grid)
	}
	return t
}
func (tt *termTable) rmul(a, b *Term) *Term {
	if a.isConst && b.isConst {
		return tt.ratC(new(big.Rat).Mul(a.r, b.r))
	}
	if b.isConst {
		a, b = b, a
	}
	if a.isConst {
		if a.r.Sign() == 0 {
			return tt.realC(0)
		}
		if a.r.IsInt() && a.r.Num().IsInt64() && a.r.Num().Int64() == 1 {
			return b
		}
		if b.op == "*" && b.args[0].isConst {
			return tt.rmul(tt.ratC(new(big.Rat).Mul(a.r, b.args[0].r)), b.args[1])
		}
		if a.r.IsInt() && b.op == "to_real" {
			return tt.toReal(tt.imul(tt.intC(a.r.Num()), b.args[0]))
		}
		if b.op == "to_real" && b.args[0].op == "*" && b.args[0].args[0].isConst {
			in := b.args[0]
			return tt.rmul(tt.ratC(new(big.Rat).Mul(a.r, new(big.Rat).SetInt(in.args[0].i))), tt.toReal(in.args[1]))
		}
	}
	if a.op == "to_real" && b.op == "to_real" {
		return tt.toReal(tt.imul(a.args[0], b.args[0]))
	}
	t := tt.mk("*", SReal, a, b)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range []float64{a.rlo, a.rhi} {
		for _, y := range []float64{b.rlo, b.rhi} {
			p := x * y
			if math.IsNaN(p) {
				p = 0
				lo, hi = math.Inf(-1), math.Inf(1)
			}
			lo, hi = math.Min(lo, p), math.Max(hi, p)
		}
	}
	t.rlo, t.rhi = dn(lo), up(hi)
	if a.grid != noGrid && b.grid != noGrid {
		t.grid = a.grid + b.grid
	}
	return t
}
func dn(f float64) float64 {
	if f == math.Trunc(f) && math.Abs(f) < 1<<52 {
		return f
	}
	return math.Nextafter(f, math.Inf(-1))
}
func up(f float64) float64 {
	if f == math.Trunc(f) && math.Abs(f) < 1<<52 {
		return f
	}
	return math.Nextafter(f, math.Inf(1))
}

func (tt *termTable) rle(a, b *Term) *Term {
	if a == b {
		return tt.boolC(true)
	}
	if a.isConst && b.isConst {
		return tt.boolC(a.r.Cmp(b.r) <= 0)
	}
	if a.rhi <= b.rlo {
		return tt.boolC(true)
	}
	if a.rlo > b.rhi {
		return tt.boolC(false)
	}
	if a.op == "to_real" && b.op == "to_real" {
		return tt.ile(a.args[0], b.args[0])
	}
	if a.op == "to_real" && b.isConst {
		return tt.ile(a.args[0], tt.toInt(b))
	}
	return tt.mk("<=", SBool, a, b)
}
func (tt *termTable) rlt(a, b *Term) *Term { return tt.not(tt.rle(b, a)) }

// ---------------------------------------------------------------- printing

func ratSMT(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num())
	s := n.String() + ".0"
	if !r.IsInt() {
		s = "(/ " + n.String() + ".0 " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}
func intSMT(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Abs(v).String() + ")"
	}
	return v.String()
}

// ref returns the name by which other terms refer to t (emitting definitions
// for t's children, and t itself, through emit).
func (tt *termTable) ref(t *Term, emit func(string)) string {
	if t.isConst {
		switch t.sort {
		case SBool:
			return strconv.FormatBool(t.b)
		case SInt:
			return intSMT(t.i)
		default:
			return ratSMT(t.r)
		}
	}
	if t.op == "var" {
		if !t.emitted {
			t.emitted = true
			tt.emittedLog = append(tt.emittedLog, t)
			emit(fmt.Sprintf("(declare-const |%s| %s)", t.name, t.sort))
		}
		return "|" + t.name + "|"
	}
	nm := "t" + strconv.Itoa(t.id)
	if !t.emitted {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(define-fun %s () %s (%s", nm, t.sort, t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(tt.ref(a, emit))
		}
		sb.WriteString("))")
		t.emitted = true
		tt.emittedLog = append(tt.emittedLog, t)
		emit(sb.String())
	}
	return nm
}

func (tt *termTable) uint64C(v uint64) *Term { return tt.intC(new(big.Int).SetUint64(v)) }
