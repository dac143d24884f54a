package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

type intKind struct {
	bits   uint
	signed bool
}

func kindOf(t types.Type) (intKind, bool) {
	b := basicOf(t)
	if b == nil {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	}
	return intKind{}, false
}

func wrapS(v int64, k intKind) int64 {
	switch k.bits {
	case 8:
		return int64(int8(v))
	case 16:
		return int64(int16(v))
	case 32:
		return int64(int32(v))
	}
	return v
}
func wrapU(v uint64, k intKind) uint64 {
	switch k.bits {
	case 8:
		return uint64(uint8(v))
	case 16:
		return uint64(uint16(v))
	case 32:
		return uint64(uint32(v))
	}
	return v
}

func (k intKind) min() *big.Int {
	if !k.signed {
		return big.NewInt(0)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), k.bits-1))
}
func (k intKind) max() *big.Int {
	b := k.bits
	if k.signed {
		b--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(1))
}

// wrapT wraps an Int term into the range of k when it may leave it.
func (m *Machine) wrapT(t *Term, k intKind) *Term {
	lo, hi := k.min(), k.max()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	tt := m.tt
	mod := tt.intC(new(big.Int).Lsh(big.NewInt(1), k.bits))
	var r *Term
	if k.signed {
		h := tt.intC(new(big.Int).Lsh(big.NewInt(1), k.bits-1))
		r = tt.isub(tt.imodEuc(tt.iadd(t, h), mod), h)
	} else {
		r = tt.imodEuc(t, mod)
	}
	if !r.isConst {
		r.lo, r.hi = lo, hi
	}
	return r
}

func (m *Machine) binop(op token.Token, t types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return m.equals(x, y)
	case token.NEQ:
		switch e := m.equals(x, y).(type) {
		case bool:
			return !e
		case *Term:
			return m.norm(m.tt.not(e))
		}
	}
	b := basicOf(t)
	if b == nil {
		panic(m.unsupported("binop %s on %s", op, t))
	}
	_, xs := x.(*Term)
	_, ys := y.(*Term)
	switch {
	case b.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return concat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.notV(m.strLess(y, x))
		case token.GEQ:
			return m.notV(m.strLess(x, y))
		}
	case b.Info()&types.IsFloat != 0:
		if xs || ys {
			return m.floatOp(op, x, y)
		}
		f, g := x.(float64), y.(float64)
		f32 := b.Kind() == types.Float32
		fix := func(v float64) float64 {
			if f32 {
				return float64(float32(v))
			}
			return v
		}
		switch op {
		case token.ADD:
			return fix(f + g)
		case token.SUB:
			return fix(f - g)
		case token.MUL:
			return fix(f * g)
		case token.QUO:
			return fix(f / g)
		case token.LSS:
			return f < g
		case token.LEQ:
			return f <= g
		case token.GTR:
			return f > g
		case token.GEQ:
			return f >= g
		}
	case b.Info()&types.IsInteger != 0:
		k, _ := kindOf(t)
		if op == token.SHL || op == token.SHR {
			return m.shift(op, k, x, y, t)
		}
		if xs || ys {
			return m.intOp(op, k, m.term(x), m.term(y), t)
		}
		if k.signed {
			a, c := x.(int64), y.(int64)
			switch op {
			case token.ADD:
				return wrapS(a+c, k)
			case token.SUB:
				return wrapS(a-c, k)
			case token.MUL:
				return wrapS(a*c, k)
			case token.QUO:
				if c == 0 {
					panic(m.rtError("integer divide by zero"))
				}
				return wrapS(a/c, k)
			case token.REM:
				if c == 0 {
					panic(m.rtError("integer divide by zero"))
				}
				return wrapS(a%c, k)
			case token.AND:
				return a & c
			case token.OR:
				return a | c
			case token.XOR:
				return wrapS(a^c, k)
			case token.AND_NOT:
				return a &^ c
			case token.LSS:
				return a < c
			case token.LEQ:
				return a <= c
			case token.GTR:
				return a > c
			case token.GEQ:
				return a >= c
			}
		}
		a, c := x.(uint64), y.(uint64)
		switch op {
		case token.ADD:
			return wrapU(a+c, k)
		case token.SUB:
			return wrapU(a-c, k)
		case token.MUL:
			return wrapU(a*c, k)
		case token.QUO:
			if c == 0 {
				panic(m.rtError("integer divide by zero"))
			}
			return a / c
		case token.REM:
			if c == 0 {
				panic(m.rtError("integer divide by zero"))
			}
			return a % c
		case token.AND:
			return a & c
		case token.OR:
			return a | c
		case token.XOR:
			return a ^ c
		case token.AND_NOT:
			return a &^ c
		case token.LSS:
			return a < c
		case token.LEQ:
			return a <= c
		case token.GTR:
			return a > c
		case token.GEQ:
			return a >= c
		}
	case b.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND, token.LAND:
			return m.norm(m.tt.and(m.term(x), m.term(y)))
		case token.OR, token.LOR:
			return m.norm(m.tt.or(m.term(x), m.term(y)))
		}
	}
	panic(m.unsupported("binop %s on %s (%T,%T)", op, t, x, y))
}

func (m *Machine) notV(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return m.norm(m.tt.not(v))
	}
	panic("notV")
}

func (m *Machine) shift(op token.Token, k intKind, x, y value, t types.Type) value {
	n := uint64(0)
	switch y := y.(type) {
	case uint64:
		n = y
	case int64:
		if y < 0 {
			panic(m.rtError("negative shift amount"))
		}
		n = uint64(y)
	case *Term:
		n = uint64(m.concInt(y))
	}
	if xt, ok := x.(*Term); ok {
		tt := m.tt
		if n >= 64 {
			panic(m.unsupported("wide symbolic shift"))
		}
		p := tt.intC(new(big.Int).Lsh(big.NewInt(1), uint(n)))
		if op == token.SHL {
			return m.normNum(m.wrapT(tt.imul(p, xt), k), t)
		}
		return m.normNum(tt.idivFloor(xt, p), t)
	}
	if k.signed {
		a := x.(int64)
		if op == token.SHL {
			if n > 63 {
				return int64(0)
			}
			return wrapS(a<<n, k)
		}
		if n > 63 {
			n = 63
		}
		return a >> n
	}
	a := x.(uint64)
	if op == token.SHL {
		if n > 63 {
			return uint64(0)
		}
		return wrapU(a<<n, k)
	}
	if n > 63 {
		return uint64(0)
	}
	return a >> n
}

func (m *Machine) intOp(op token.Token, k intKind, a, b *Term, ty types.Type) value {
	tt := m.tt
	switch op {
	case token.ADD:
		return m.normNum(m.wrapT(tt.iadd(a, b), k), ty)
	case token.SUB:
		return m.normNum(m.wrapT(tt.isub(a, b), k), ty)
	case token.MUL:
		return m.normNum(m.wrapT(tt.imul(a, b), k), ty)
	case token.QUO, token.REM:
		if m.branch(tt.eq(b, tt.int64C(0))) {
			panic(m.rtError("integer divide by zero"))
		}
		// truncated division through floor division of absolute values
		zero := tt.int64C(0)
		if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
			if op == token.QUO {
				return m.normNum(tt.idivFloor(a, b), ty)
			}
			return m.normNum(tt.imodEuc(a, b), ty)
		}
		an, bn := tt.ilt(a, zero), tt.ilt(b, zero)
		aa, ba := tt.ite(an, tt.ineg(a), a), tt.ite(bn, tt.ineg(b), b)
		if aa != a {
			aa.lo = zero.i
		}
		if op == token.QUO {
			q := tt.idivFloor(aa, ba)
			neg := tt.or(tt.and(an, tt.not(bn)), tt.and(bn, tt.not(an)))
			return m.normNum(m.wrapT(tt.ite(neg, tt.ineg(q), q), k), ty)
		}
		r := tt.imodEuc(aa, ba)
		return m.normNum(tt.ite(an, tt.ineg(r), r), ty)
	case token.LSS:
		return m.norm(tt.ilt(a, b))
	case token.LEQ:
		return m.norm(tt.ile(a, b))
	case token.GTR:
		return m.norm(tt.ilt(b, a))
	case token.GEQ:
		return m.norm(tt.ile(b, a))
	case token.AND:
		// x & (2^n-1) on non-negative values
		if a.isConst {
			a, b = b, a
		}
		if b.isConst && a.lo != nil && a.lo.Sign() >= 0 {
			n := new(big.Int).Add(b.i, big.NewInt(1))
			if b.i.Sign() >= 0 && new(big.Int).And(n, b.i).Sign() == 0 {
				return m.normNum(tt.imodEuc(a, tt.intC(n)), ty)
			}
		}
	}
	// bit operations: enumerate the (small) operands
	va, vb := m.concretize(a).Num(), m.concretize(b).Num()
	r := new(big.Int)
	switch op {
	case token.AND:
		r.And(va, vb)
	case token.OR:
		r.Or(va, vb)
	case token.XOR:
		r.Xor(va, vb)
	case token.AND_NOT:
		r.AndNot(va, vb)
	default:
		panic(m.unsupported("int op %s", op))
	}
	return m.normNum(tt.intC(r), ty)
}

func (m *Machine) unop(i *ssa.UnOp, x value) value {
	switch i.Op {
	case token.MUL:
		return m.load(x)
	case token.NOT:
		return m.notV(x)
	case token.SUB:
		switch v := x.(type) {
		case int64:
			k, _ := kindOf(i.Type())
			return wrapS(-v, k)
		case uint64:
			k, _ := kindOf(i.Type())
			return wrapU(-v, k)
		case float64:
			return -v
		case *Term:
			if v.sort == SInt {
				k, _ := kindOf(i.Type())
				return m.normNum(m.wrapT(m.tt.ineg(v), k), i.Type())
			}
			return m.normNum(m.tt.rmul(m.tt.realC(-1), v), i.Type())
		}
	case token.XOR:
		k, _ := kindOf(i.Type())
		switch v := x.(type) {
		case int64:
			return wrapS(^v, k)
		case uint64:
			return wrapU(^v, k)
		}
	case token.ARROW:
		panic(m.unsupported("channel receive"))
	}
	panic(m.unsupported("unop %s %T", i.Op, x))
}

// ---------------------------------------------------------------- floats

const fbits = 53

// exactReal reports whether every value of t is representable as a float64.
func exactReal(t *Term) bool {
	if t.grid == noGrid {
		return false
	}
	mx := math.Max(math.Abs(t.rlo), math.Abs(t.rhi))
	if math.IsInf(mx, 0) || t.grid > 1000 {
		return false
	}
	return math.Ldexp(mx, t.grid) <= 1<<fbits
}

// rounded introduces the float64 rounding of the exact real term e.
func (m *Machine) rounded(e *Term, what string, known ...*Term) *Term {
	if e.isConst {
		f, _ := e.r.Float64()
		if math.IsInf(f, 0) {
			panic(m.unsupported("float overflow"))
		}
		return m.tt.realC(f)
	}
	if exactReal(e) {
		return e
	}
	mx := math.Max(math.Abs(e.rlo), math.Abs(e.rhi))
	if math.IsInf(mx, 0) || math.IsNaN(mx) || mx > 1e300 {
		panic(m.unsupported("float rounding of unbounded value (%s)", what))
	}
	tt := m.tt
	key := ""
	if m.mg == nil {
		// equal terms round to the same number
		key = "rounded|" + strconv.Itoa(e.id)
		if r := m.strEqCache[key]; r != nil {
			return r
		}
	}
	r := m.freshVar("fl_"+what, SReal)
	if key != "" {
		m.strEqCache[key] = r
	}
	m.relaxed = true
	// rounding is monotone: bounds that are floats stay bounds
	m.setRange(r, e.rlo, e.rhi)
	// |r-e| <= 2^-53 * 2^ceil(log2 max) + tiny
	_, ex := math.Frexp(mx)
	delta := tt.realC(math.Ldexp(1, ex-fbits))
	m.assert(tt.rle(tt.rsub(e, delta), r))
	m.assert(tt.rle(r, tt.radd(e, delta)))
	// rounding is monotone and the identity on floats
	zero := tt.realC(0)
	for _, a := range append(append(append([]*Term{zero}, known...), m.inAnchors...), m.anchors...) {
		if a == e {
			continue
		}
		m.assert(tt.or(tt.not(tt.rle(a, e)), tt.rle(a, r)))
		m.assert(tt.or(tt.not(tt.rle(e, a)), tt.rle(r, a)))
	}
	m.anchors = append(m.anchors, r)
	if len(m.anchors) > 10 {
		m.anchors = m.anchors[len(m.anchors)-10:]
	}
	return r
}

// nextafter is the next float above (or below) t: nothing known to be a float
// lies strictly between.
func (m *Machine) nextafter(t *Term, up bool) *Term {
	tt := m.tt
	mx := math.Max(math.Abs(t.rlo), math.Abs(t.rhi))
	if math.IsInf(mx, 0) || mx > 1e300 {
		panic(m.unsupported("math.Nextafter of an unbounded value"))
	}
	r := m.freshVar("next", SReal)
	m.relaxed = true
	_, ex := math.Frexp(mx)
	d := tt.realC(math.Ldexp(1, ex-fbits+1))
	inf := math.Inf(-1)
	if up {
		inf = math.Inf(1)
	}
	m.setRange(r, math.Nextafter(t.rlo, inf), math.Nextafter(t.rhi, inf))
	as := append(append([]*Term{tt.realC(0)}, m.inAnchors...), m.anchors...)
	if up {
		m.assert(tt.rlt(t, r))
		m.assert(tt.rle(r, tt.radd(t, d)))
		for _, a := range as {
			m.assert(tt.or(tt.rle(a, t), tt.rle(r, a)))
		}
	} else {
		m.assert(tt.rlt(r, t))
		m.assert(tt.rle(tt.rsub(t, d), r))
		for _, a := range as {
			m.assert(tt.or(tt.rle(t, a), tt.rle(a, r)))
		}
	}
	m.anchors = append(m.anchors, r)
	return r
}

func (m *Machine) smallDomain(t *Term, limit int64) bool {
	if t.isConst {
		return true
	}
	if t.sort == SInt {
		return t.lo != nil && t.hi != nil && new(big.Int).Sub(t.hi, t.lo).Cmp(big.NewInt(limit)) <= 0
	}
	if t.grid == noGrid || t.grid > 40 || t.grid < -40 {
		return false
	}
	return math.Ldexp(t.rhi-t.rlo, t.grid) <= float64(limit)
}

func (m *Machine) concFloat(t *Term) float64 {
	r := m.concretize(t)
	f, exact := r.Float64()
	if !exact {
		panic(m.unsupported("enumerated real is not a float64"))
	}
	return f
}

func (m *Machine) floatOp(op token.Token, x, y value) value {
	tt := m.tt
	// non-finite concrete operands
	inf := func(v value) (float64, bool) {
		f, ok := v.(float64)
		return f, ok && (math.IsInf(f, 0) || math.IsNaN(f))
	}
	if f, ok := inf(x); ok {
		return m.floatInf(op, f, true, y)
	}
	if f, ok := inf(y); ok {
		return m.floatInf(op, f, false, x)
	}
	a, b := m.exactly(m.term(x)), m.exactly(m.term(y))
	if a.isConst && b.isConst {
		f, e1 := a.r.Float64()
		g, e2 := b.r.Float64()
		if e1 && e2 {
			return m.binop(op, types.Typ[types.Float64], f, g)
		}
	}
	flt := types.Typ[types.Float64]
	tab := func(f func(x, y float64) float64, e *Term) value {
		if a.tab == nil && b.tab == nil && e != nil && exactReal(e) {
			return nil
		}
		return m.tabOp(f, a, b)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if q, ok := m.tabCmp(op, a, b); ok {
			return q
		}
		if q, ok := m.cmpQuot(op, a, b); ok {
			return q
		}
		switch op {
		case token.LSS:
			return m.norm(tt.rlt(a, b))
		case token.LEQ:
			return m.norm(tt.rle(a, b))
		case token.GTR:
			return m.norm(tt.rlt(b, a))
		default:
			return m.norm(tt.rle(b, a))
		}
	case token.ADD:
		e := tt.radd(a, b)
		if r := tab(func(x, y float64) float64 { return x + y }, e); r != nil {
			return r
		}
		return m.normNum(m.rounded(e, "add", a, b), flt)
	case token.SUB:
		e := tt.rsub(a, b)
		if r := tab(func(x, y float64) float64 { return x - y }, e); r != nil {
			return r
		}
		return m.normNum(m.rounded(e, "sub", a), flt)
	case token.MUL:
		if !a.isConst && !b.isConst {
			if d, ok := m.isUnit(a); ok {
				return m.unitMul(d, a, b)
			}
			if d, ok := m.isUnit(b); ok {
				return m.unitMul(d, b, a)
			}
			if r := tab(func(x, y float64) float64 { return x * y }, nil); r != nil {
				return r
			}
			if m.smallDomain(b, 64) {
				return m.floatOp(op, x, m.concFloat(b))
			}
			if m.smallDomain(a, 64) {
				return m.floatOp(op, m.concFloat(a), y)
			}
		}
		e := tt.rmul(a, b)
		if r := tab(func(x, y float64) float64 { return x * y }, e); r != nil {
			return r
		}
		if !exactReal(e) && !e.isConst {
			// prefer enumeration of small domains over a rounding relaxation
			if m.smallDomain(a, 64) && m.smallDomain(b, 64) {
				return m.binop(op, flt, m.concFloat(a), m.concFloat(b))
			}
		}
		return m.normNum(m.rounded(e, "mul"), flt)
	case token.QUO:
		if !b.isConst || b.r.Sign() != 0 {
			pow2 := false
			if b.isConst {
				d, _ := b.r.Float64()
				fr, _ := math.Frexp(d)
				pow2 = math.Abs(fr) == 0.5
			}
			whole := false
			if b.isConst && a.tab == nil && a.grid != noGrid && a.grid < 20 && gridOf(b.rlo) < 20 && a.rhi-a.rlo < 1<<30 {
				whole = true // handled by exact division
			}
			if !pow2 && !whole || a.tab != nil {
				if r := tab(func(x, y float64) float64 { return x / y }, nil); r != nil {
					return r
				}
			}
		}
		if !b.isConst {
			if !m.smallDomain(b, 64) {
				if b.grid == noGrid || b.grid > 0 || m.branch(tt.eq(b, tt.realC(0))) {
					panic(m.unsupported("division by a wide symbolic float"))
				}
				// whole divisor: the quotient is no larger than the dividend
				mx := math.Max(math.Abs(a.rlo), math.Abs(a.rhi))
				q := m.freshVar("quot", SReal)
				m.setRange(q, -mx, mx)
				m.assert(tt.eq(tt.rmul(q, b), a))
				m.assert(tt.or(tt.not(tt.and(tt.rle(tt.realC(0), a), tt.rlt(tt.realC(0), b))), tt.rle(tt.realC(0), q)))
				return m.normNum(m.rounded(q, "quo"), flt)
			}
			return m.floatOp(op, x, m.concFloat(b))
		}
		d, _ := b.r.Float64()
		if d == 0 {
			if m.branch(tt.eq(a, tt.realC(0))) {
				return math.NaN()
			}
			if m.branch(tt.rlt(a, tt.realC(0))) != math.Signbit(d) {
				return math.Inf(-1)
			}
			return math.Inf(1)
		}
		if a.isConst {
			f, _ := a.r.Float64()
			return f / d
		}
		if fr, _ := math.Frexp(d); math.Abs(fr) == 0.5 {
			return m.normNum(m.rounded(tt.rmul(a, tt.ratC(new(big.Rat).Inv(b.r))), "div"), flt)
		}
		if m.smallDomain(a, 64) && (a.grid == noGrid || gridOf(d) > 8) {
			return m.binop(op, flt, m.concFloat(a), d)
		}
		return m.quotient(a, d)
	}
	panic(m.unsupported("float op %s", op))
}

// quotient models fl(a/d) for a constant d that is not a power of two; when a
// lies on a common grid with d the comparisons of the quotient with integers
// and half-integers are exact.
func (m *Machine) quotient(a *Term, d float64) value {
	tt := m.tt
	e := tt.rmul(a, tt.ratC(new(big.Rat).Inv(new(big.Rat).SetFloat64(d))))
	if exactReal(e) {
		return m.normNum(e, types.Typ[types.Float64])
	}
	r := m.rounded(e, "quo")
	if a.grid != noGrid && !r.isConst {
		g := maxI(a.grid, gridOf(d))
		if g < 20 && math.Max(math.Abs(e.rlo), math.Abs(e.rhi)) < 1<<30 {
			r.quot = e
		}
	}
	return r
}

// cmpQuot compares a quotient term with a constant integer or half-integer.
func (m *Machine) cmpQuot(op token.Token, a, b *Term) (value, bool) {
	tt := m.tt
	half := func(t *Term) bool {
		return t.isConst && new(big.Rat).Mul(t.r, big.NewRat(2, 1)).IsInt() || t.op == "to_real"
	}
	if a.quot != nil && half(b) {
		a = a.quot
	} else if b.quot != nil && half(a) {
		b = b.quot
	} else {
		return nil, false
	}
	switch op {
	case token.LSS:
		return m.norm(tt.rlt(a, b)), true
	case token.LEQ:
		return m.norm(tt.rle(a, b)), true
	case token.GTR:
		return m.norm(tt.rlt(b, a)), true
	}
	return m.norm(tt.rle(b, a)), true
}

func (m *Machine) floatInf(op token.Token, f float64, left bool, other value) value {
	t, sym := other.(*Term)
	if !sym {
		if left {
			return m.binop(op, types.Typ[types.Float64], f, other)
		}
		return m.binop(op, types.Typ[types.Float64], other, f)
	}
	// any finite representative decides the operation except for sign-sensitive ones
	rep := 1.0
	if op == token.MUL || op == token.QUO {
		if m.branch(m.tt.eq(t, m.tt.realC(0))) {
			rep = 0
		} else if m.branch(m.tt.rlt(t, m.tt.realC(0))) {
			rep = -1
		}
		if op == token.QUO && !left { // finite / inf = 0
			return 0.0
		}
	}
	if left {
		return m.binop(op, types.Typ[types.Float64], f, rep)
	}
	return m.binop(op, types.Typ[types.Float64], rep, f)
}

// isUnit tells whether t is a Float64() draw in [0,1).
func (m *Machine) isUnit(t *Term) (int, bool) {
	for i := range m.draws {
		if m.draws[i].kind == "f64" && m.draws[i].v == value(t) {
			return i, true
		}
	}
	return 0, false
}

// unitMul models fl(u*range) for u in [0,1) drawn freshly.
func (m *Machine) unitMul(d int, u, rng *Term) value {
	tt := m.tt
	zero := tt.realC(0)
	p := m.freshVar("umul", SReal)
	m.relaxed = true
	m.setRange(p, math.Min(0, rng.rlo), math.Max(0, rng.rhi))
	if m.branch(tt.rle(zero, rng)) {
		m.assert(tt.rle(zero, p))
		m.assert(tt.rle(p, rng))
		m.assert(tt.or(tt.not(tt.eq(rng, zero)), tt.eq(p, zero)))
	} else {
		m.assert(tt.rle(p, zero))
		m.assert(tt.rle(rng, p))
	}
	m.assert(tt.or(tt.not(tt.eq(u, zero)), tt.eq(p, zero)))
	m.draws[d].prod, m.draws[d].rng = p, rng
	m.anchors = append(m.anchors, p)
	p.unitRng = rng
	return p
}

// ---------------------------------------------------------------- conversions

func (m *Machine) convert(to, from types.Type, x value) value {
	ut, uf := to.Underlying(), from.Underlying()
	switch t := ut.(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch f := uf.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				if f.Info()&types.IsInteger != 0 {
					return m.runeToString(x)
				}
			case *types.Slice:
				eb := basicOf(f.Elem())
				if eb != nil && eb.Kind() == types.Uint8 {
					return m.strOfBytes(x)
				}
				var parts []value
				s, _ := x.([]value)
				for _, r := range s {
					parts = append(parts, m.runeToString(r))
				}
				if len(parts) == 0 {
					return ""
				}
				return concat(parts...)
			}
		}
		if t.Kind() == types.UnsafePointer {
			return x
		}
		if fb, ok := uf.(*types.Basic); ok {
			if fb.Kind() == types.UnsafePointer {
				return x
			}
			return m.convNum(t, fb, x)
		}
	case *types.Slice:
		if fb, ok := uf.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			eb := basicOf(t.Elem())
			if eb.Kind() == types.Uint8 {
				return m.toByteSlice(x)
			}
			it := m.rangeIter(x).(*iter)
			out := []value{}
			for {
				tu := it.next(m).(tuple)
				if !tu[0].(bool) {
					break
				}
				out = append(out, tu[2])
			}
			return out
		}
		return x
	case *types.Pointer:
		return x
	}
	return x
}

func (m *Machine) runeToString(x value) value {
	switch r := x.(type) {
	case int64:
		return string(rune(r))
	case uint64:
		return string(rune(r))
	case *Term:
		if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(big.NewInt(127)) <= 0 {
			return mkStr([]seg{{k: sByte, t: r}})
		}
		tt := m.tt
		if m.branch(tt.and(tt.ile(tt.int64C(0), r), tt.ile(r, tt.int64C(127)))) {
			return mkStr([]seg{{k: sByte, t: r}})
		}
		if m.mg != nil {
			return string(rune(m.concInt(r)))
		}
		// the bytes of a longer encoding
		c := tt.int64C
		by := func(t *Term, lo, hi int64) seg {
			if t.isConst {
				return seg{k: sLit, lit: string([]byte{byte(t.i.Int64())})}
			}
			t.lo, t.hi = maxB2(t.lo, bigInt(lo)), minB2(t.hi, bigInt(hi))
			return seg{k: sByte, t: t}
		}
		cont := func(shift int64) seg {
			return by(tt.iadd(c(0x80), tt.imodEuc(tt.idivFloor(r, c(shift)), c(64))), 0x80, 0xBF)
		}
		switch {
		case m.branch(tt.and(tt.ile(c(128), r), tt.ile(r, c(0x7FF)))):
			return mkStr([]seg{by(tt.iadd(c(0xC0), tt.idivFloor(r, c(64))), 0xC2, 0xDF), cont(1)})
		case m.branch(tt.and(tt.ile(c(0x800), r), tt.ile(r, c(0xFFFF)), tt.or(tt.ilt(r, c(0xD800)), tt.ile(c(0xE000), r)))):
			return mkStr([]seg{by(tt.iadd(c(0xE0), tt.idivFloor(r, c(4096))), 0xE0, 0xEF), cont(64), cont(1)})
		case m.branch(tt.and(tt.ile(c(0x10000), r), tt.ile(r, c(0x10FFFF)))):
			return mkStr([]seg{by(tt.iadd(c(0xF0), tt.idivFloor(r, c(262144))), 0xF0, 0xF4), cont(4096), cont(64), cont(1)})
		}
		return "\uFFFD"
	}
	panic(m.unsupported("runeToString %T", x))
}

func (m *Machine) convNum(t, f *types.Basic, x value) value {
	ti, tf := t.Info()&types.IsInteger != 0, t.Info()&types.IsFloat != 0
	if term, ok := x.(*Term); ok {
		tt := m.tt
		switch {
		case term.sort == SInt && ti:
			k, _ := kindOf(t)
			return m.normNum(m.wrapT(term, k), t)
		case term.sort == SInt && tf:
			return m.normNum(m.rounded(tt.toReal(term), "i2f"), t)
		case term.sort == SReal && tf:
			if t.Kind() == types.Float32 {
				panic(m.unsupported("float32 conversion"))
			}
			return term
		case term.sort == SReal && ti:
			k, _ := kindOf(t)
			q := m.truncT(term)
			if q.lo == nil || q.hi == nil || q.lo.Cmp(k.min()) < 0 || q.hi.Cmp(k.max()) > 0 {
				if !k.signed || k.bits != 64 {
					panic(m.unsupported("float to int conversion may overflow"))
				}
				// what amd64 yields for everything out of range
				if !m.branch(tt.and(tt.ile(tt.intC(k.min()), q), tt.ile(q, tt.intC(k.max())))) {
					return int64(math.MinInt64)
				}
				r := m.freshInt("int", k.min(), k.max())
				m.assert(tt.eq(r, q))
				q = r
			}
			return m.normNum(q, t)
		}
		return x
	}
	switch v := x.(type) {
	case int64:
		switch {
		case ti:
			k, _ := kindOf(t)
			if k.signed {
				return wrapS(v, k)
			}
			return wrapU(uint64(v), k)
		case tf:
			if t.Kind() == types.Float32 {
				return float64(float32(v))
			}
			return float64(v)
		}
	case uint64:
		switch {
		case ti:
			k, _ := kindOf(t)
			if k.signed {
				return wrapS(int64(v), k)
			}
			return wrapU(v, k)
		case tf:
			return float64(v)
		}
	case float64:
		switch {
		case tf:
			if t.Kind() == types.Float32 {
				return float64(float32(v))
			}
			return v
		case ti:
			k, _ := kindOf(t)
			if k.signed {
				return wrapS(int64(v), k)
			}
			return wrapU(uint64(v), k)
		}
	}
	return x
}

func (m *Machine) floorT(t *Term) *Term {
	if t.quot != nil {
		return m.floorRat(t.quot)
	}
	return m.tt.toInt(t)
}

// floorRat computes floor of c*x for an Int-grid x as an integer division,
// which solvers handle better than to_int of a rational.
func (m *Machine) floorRat(e *Term) *Term {
	tt := m.tt
	if e.op == "*" && e.args[0].isConst && e.args[1].grid != noGrid {
		c := e.args[0].r // rational constant
		a := e.args[1]
		if in := m.scaled(a); in != nil && c.Sign() > 0 {
			// a = in * 2^-g ; floor(c*in*2^-g) = floor(num*in / (den*2^g))
			num := new(big.Int).Set(c.Num())
			den := new(big.Int).Set(c.Denom())
			if a.grid > 0 {
				den.Lsh(den, uint(a.grid))
			} else {
				num.Lsh(num, uint(-a.grid))
			}
			return tt.idivFloor(tt.imul(tt.intC(num), in), tt.intC(den))
		}
	}
	return tt.toInt(e)
}

// scaled returns the Int term a*2^grid when it is structurally available.
func (m *Machine) scaled(a *Term) *Term {
	tt := m.tt
	g := a.grid
	if a.isConst {
		s := new(big.Rat).Mul(a.r, pow2(g))
		return tt.intC(s.Num())
	}
	switch a.op {
	case "to_real":
		if g == 0 {
			return a.args[0]
		}
	case "*":
		if a.args[0].isConst && a.args[1].op == "to_real" {
			s := new(big.Rat).Mul(a.args[0].r, pow2(g))
			if s.IsInt() {
				return tt.imul(tt.intC(s.Num()), a.args[1].args[0])
			}
		}
	case "+", "-":
		if len(a.args) == 2 {
			x, y := a.args[0], a.args[1]
			sx, sy := m.scaled(x), m.scaled(y)
			if sx != nil && sy != nil {
				sx = tt.imul(tt.intC(new(big.Int).Lsh(big.NewInt(1), uint(g-x.grid))), sx)
				sy = tt.imul(tt.intC(new(big.Int).Lsh(big.NewInt(1), uint(g-y.grid))), sy)
				if a.op == "+" {
					return tt.iadd(sx, sy)
				}
				return tt.isub(sx, sy)
			}
		}
	}
	return nil
}

func pow2(g int) *big.Rat {
	if g >= 0 {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(g)))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-g)))
}

func (m *Machine) truncT(t *Term) *Term {
	tt := m.tt
	if t.rlo >= 0 {
		return m.floorT(t)
	}
	if t.op == "to_real" {
		return t.args[0]
	}
	fl := m.floorT(t)
	neg := m.ceilT(t)
	if fl == neg {
		return fl
	}
	r := tt.ite(tt.rle(tt.realC(0), t), fl, neg)
	return r
}

func (m *Machine) ceilT(t *Term) *Term {
	tt := m.tt
	if t.op == "to_real" {
		return t.args[0]
	}
	e := t
	if t.quot != nil {
		e = t.quot
		// ceil(c*x) = -floor(-c*x) ; build with negated numerator
		if e.op == "*" && e.args[0].isConst {
			if in := m.scaled(e.args[1]); in != nil && e.args[0].r.Sign() > 0 {
				c := e.args[0].r
				num := new(big.Int).Neg(c.Num())
				den := new(big.Int).Set(c.Denom())
				if g := e.args[1].grid; g > 0 {
					den.Lsh(den, uint(g))
				} else {
					num.Lsh(num, uint(-g))
				}
				return tt.ineg(tt.idivFloor(tt.imul(tt.intC(num), in), tt.intC(den)))
			}
		}
	}
	r := tt.ineg(tt.toInt(tt.rmul(tt.realC(-1), e)))
	return r
}

// roundT: math.Round (half away from zero)
func (m *Machine) roundT(t *Term) *Term {
	tt := m.tt
	if t.op == "to_real" {
		return t.args[0]
	}
	half := tt.realC(0.5)
	e := t
	if t.quot != nil {
		e = t.quot
	}
	pos := tt.toInt(tt.radd(e, half))
	if t.rlo >= 0 {
		return pos
	}
	neg := tt.ineg(tt.toInt(tt.radd(tt.rmul(tt.realC(-1), e), half)))
	return tt.ite(tt.rle(tt.realC(0), t), pos, neg)
}

// maxB2 and minB2 tighten a bound; nil is no bound.
func maxB2(a, b *big.Int) *big.Int {
	if a == nil || b.Cmp(a) > 0 {
		return b
	}
	return a
}

func minB2(a, b *big.Int) *big.Int {
	if a == nil || b.Cmp(a) < 0 {
		return b
	}
	return a
}
