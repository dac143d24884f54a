package main

import (
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type segKind uint8

const (
	sLit segKind = iota
	sByte
	sDec
	sFlt
	sOpq
)

type opaque struct {
	id   int
	name string
	ln   *Term // byte length
	info string
}

type seg struct {
	k   segKind
	lit string
	t   *Term
	o   *opaque
}

// SymStr is a string with symbolic parts.
type SymStr struct{ segs []seg }

func mkStr(segs []seg) value {
	var out []seg
	for _, s := range segs {
		if s.k == sByte && s.t.isConst {
			s = seg{k: sLit, lit: string([]byte{byte(s.t.i.Int64())})}
		}
		if s.k == sDec && s.t.isConst {
			s = seg{k: sLit, lit: s.t.i.String()}
		}
		if s.k == sFlt && s.t.isConst {
			f, _ := s.t.r.Float64()
			s = seg{k: sLit, lit: fmtJSONFloat(f)}
		}
		if s.k == sLit {
			if s.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == sLit {
				out[n-1].lit += s.lit
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].k == sLit {
		return out[0].lit
	}
	return &SymStr{out}
}

func segsOf(v value) []seg {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []seg{{k: sLit, lit: v}}
	case *SymStr:
		return v.segs
	}
	panic("segsOf")
}

func concat(vs ...value) value {
	allc := true
	for _, v := range vs {
		if _, ok := v.(string); !ok {
			allc = false
		}
	}
	if allc {
		var sb strings.Builder
		for _, v := range vs {
			sb.WriteString(v.(string))
		}
		return sb.String()
	}
	var segs []seg
	for _, v := range vs {
		segs = append(segs, segsOf(v)...)
	}
	return mkStr(segs)
}

func (s *SymStr) key() string {
	var sb strings.Builder
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			sb.WriteString(strconv.Quote(g.lit))
		case sOpq:
			sb.WriteString("<o" + strconv.Itoa(g.o.id) + ">")
		default:
			sb.WriteString("<" + strconv.Itoa(int(g.k)) + ":" + strconv.Itoa(g.t.id) + ">")
		}
	}
	return sb.String()
}

// decLen is the number of characters of the decimal rendering of t.
func (m *Machine) decLen(t *Term) *Term {
	tt := m.tt
	if t.lo == nil || t.hi == nil {
		panic(m.unsupported("decimal length of unbounded integer"))
	}
	abs := t
	res := tt.int64C(1)
	neg := tt.boolC(false)
	if t.lo.Sign() < 0 {
		neg = tt.ilt(t, tt.int64C(0))
		abs = tt.ite(neg, tt.ineg(t), t)
		abs.lo = big.NewInt(0)
	}
	p := big.NewInt(10)
	bound := new(big.Int).Abs(t.hi)
	if l := new(big.Int).Abs(t.lo); l.Cmp(bound) > 0 {
		bound = l
	}
	for p.Cmp(bound) <= 0 {
		res = tt.iadd(res, tt.ite(tt.ile(tt.intC(p), abs), tt.int64C(1), tt.int64C(0)))
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	return tt.iadd(res, tt.ite(neg, tt.int64C(1), tt.int64C(0)))
}

// strLen returns int64 or *Term
func (m *Machine) strLen(v value) value {
	switch s := v.(type) {
	case string:
		return int64(len(s))
	case *SymStr:
		acc := m.tt.int64C(0)
		for _, g := range s.segs {
			switch g.k {
			case sLit:
				acc = m.tt.iadd(acc, m.tt.int64C(int64(len(g.lit))))
			case sByte:
				acc = m.tt.iadd(acc, m.tt.int64C(1))
			case sDec:
				acc = m.tt.iadd(acc, m.decLen(g.t))
			case sFlt:
				panic(m.unsupported("length of symbolic float text"))
			case sOpq:
				acc = m.tt.iadd(acc, g.o.ln)
			}
		}
		if acc.isConst {
			return acc.i.Int64()
		}
		return acc
	}
	panic("strLen")
}

// flatten turns dec/flt holes into literals by enumerating their values and
// fails on opaque parts.
func (m *Machine) flatten(v value) []seg {
	var out []seg
	for _, g := range segsOf(v) {
		switch g.k {
		case sDec:
			n := m.concretize(g.t)
			out = append(out, seg{k: sLit, lit: n.Num().String()})
		case sFlt:
			r := m.concretize(g.t)
			f, _ := r.Float64()
			out = append(out, seg{k: sLit, lit: fmtJSONFloat(f)})
		case sOpq:
			panic(m.unsupported("byte access into opaque string %s", g.o.name))
		default:
			out = append(out, g)
		}
	}
	return out
}

// bytesOf returns one value per byte.
func (m *Machine) bytesOf(v value) []value {
	if s, ok := v.(string); ok {
		out := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	}
	var out []value
	for _, g := range m.flatten(v) {
		if g.k == sLit {
			for i := 0; i < len(g.lit); i++ {
				out = append(out, uint64(g.lit[i]))
			}
		} else {
			out = append(out, g.t)
		}
	}
	return out
}

func (m *Machine) fromBytes(bs []value) value {
	allc := true
	for _, b := range bs {
		if _, ok := b.(*Term); ok {
			allc = false
			break
		}
	}
	if allc {
		out := make([]byte, len(bs))
		for i, b := range bs {
			out[i] = byte(b.(uint64))
		}
		return string(out)
	}
	var segs []seg
	for _, b := range bs {
		if t, ok := b.(*Term); ok {
			segs = append(segs, seg{k: sByte, t: t})
		} else {
			segs = append(segs, seg{k: sLit, lit: string([]byte{byte(b.(uint64))})})
		}
	}
	return mkStr(segs)
}

func isPlainBytes(v value) bool {
	s, ok := v.(*SymStr)
	if !ok {
		return true
	}
	for _, g := range s.segs {
		if g.k != sLit && g.k != sByte {
			return false
		}
	}
	return true
}

// toByteSlice converts a string value to a []byte value.
func (m *Machine) toByteSlice(v value) value {
	if s, ok := v.(string); ok {
		if len(s) > 256 {
			return &symBytes{s}
		}
		return m.bytesOf(v)
	}
	if isPlainBytes(v) {
		return m.bytesOf(v)
	}
	return &symBytes{v}
}

// strOfBytes converts a []byte value to a string value.
func (m *Machine) strOfBytes(v value) value {
	switch b := v.(type) {
	case *symBytes:
		return b.s
	case []value:
		return m.fromBytes(b)
	case nil:
		return ""
	}
	panic(m.unsupported("strOfBytes %T", v))
}

// segIndexSplit splits the string at concrete byte offset i, when possible.
func (m *Machine) strSplitAt(v value, i int64) (value, value) {
	if s, ok := v.(string); ok {
		if i < 0 || i > int64(len(s)) {
			panic(goPanic("runtime error: slice bounds out of range"))
		}
		return s[:i], s[i:]
	}
	ss := v.(*SymStr)
	var left []seg
	for n, g := range ss.segs {
		if i == 0 {
			return mkStr(left), mkStr(ss.segs[n:])
		}
		switch g.k {
		case sLit:
			if int64(len(g.lit)) > i {
				return mkStr(append(left, seg{k: sLit, lit: g.lit[:i]})), mkStr(append([]seg{{k: sLit, lit: g.lit[i:]}}, ss.segs[n+1:]...))
			}
			i -= int64(len(g.lit))
			left = append(left, g)
		case sByte:
			i--
			left = append(left, g)
		case sDec, sFlt:
			// enumerate
			f := m.flatten(&SymStr{[]seg{g}})
			rest := append(append([]seg{}, f...), ss.segs[n+1:]...)
			l, r := m.strSplitAt(mkStr(rest), i)
			return concat(mkStr(left), l), r
		case sOpq:
			it := m.tt.int64C(i)
			if m.branch(m.tt.ile(it, g.o.ln)) {
				a := m.newOpaque(g.o.name+"[:"+strconv.FormatInt(i, 10)+"]", it)
				b := m.newOpaque(g.o.name+"["+strconv.FormatInt(i, 10)+":]", m.tt.isub(g.o.ln, it))
				return mkStr(append(left, seg{k: sOpq, o: a})), mkStr(append([]seg{{k: sOpq, o: b}}, ss.segs[n+1:]...))
			}
			if n == len(ss.segs)-1 {
				panic(goPanic("runtime error: slice bounds out of range"))
			}
			panic(m.unsupported("split past opaque"))
		}
	}
	if i == 0 {
		return mkStr(left), ""
	}
	panic(goPanic("runtime error: slice bounds out of range"))
}

func (m *Machine) newOpaque(name string, ln *Term) *opaque {
	m.nOpaque++
	m.unscripted = true
	return &opaque{id: m.nOpaque, name: name, ln: ln}
}

// strSlice s[lo:hi]; hi may be nil
func (m *Machine) strSlice(v value, lo, hi value) value {
	if hi != nil {
		if t, ok := hi.(*Term); ok {
			// slicing a single opaque/any string at a symbolic length
			if ss, ok := v.(*SymStr); ok && lo == nil {
				ln := m.term(m.strLen(v))
				if !m.branch(m.tt.and(m.tt.ile(m.tt.int64C(0), t), m.tt.ile(t, ln))) {
					panic(goPanic("runtime error: slice bounds out of range"))
				}
				if ss.segs[0].k == sOpq {
					allOpq := true
					for _, g := range ss.segs {
						if g.k != sOpq {
							allOpq = false
						}
					}
					if allOpq {
						return mkStr([]seg{{k: sOpq, o: m.newOpaque("slice("+ss.segs[0].o.name+")", t)}})
					}
				}
			}
			hi = m.concretize(t).Num().Int64()
		}
		a, _ := m.strSplitAt(v, hi.(int64))
		v = a
	}
	if lo != nil {
		var l int64
		switch x := lo.(type) {
		case int64:
			l = x
		case *Term:
			l = m.concretize(x).Num().Int64()
		}
		if l != 0 {
			_, b := m.strSplitAt(v, l)
			v = b
		}
	}
	return v
}

func (m *Machine) strIndex(v value, i value) value {
	if u, ok := i.(uint64); ok {
		i = int64(u)
	}
	if s, ok := v.(string); ok {
		switch i := i.(type) {
		case int64:
			if i < 0 || i >= int64(len(s)) {
				panic(goPanic("runtime error: index out of range"))
			}
			return uint64(s[i])
		case *Term:
			tt := m.tt
			if !m.branch(tt.and(tt.ile(tt.int64C(0), i), tt.ilt(i, tt.int64C(int64(len(s)))))) {
				panic(goPanic("runtime error: index out of range"))
			}
			// ite chain over positions
			lo, hi := int64(0), int64(len(s)-1)
			if i.lo != nil && i.lo.IsInt64() && i.lo.Int64() > lo {
				lo = i.lo.Int64()
			}
			if i.hi != nil && i.hi.IsInt64() && i.hi.Int64() < hi {
				hi = i.hi.Int64()
			}
			res := tt.int64C(int64(s[hi]))
			for j := hi - 1; j >= lo; j-- {
				res = tt.ite(tt.eq(i, tt.int64C(j)), tt.int64C(int64(s[j])), res)
			}
			if res.isConst {
				return res.i.Uint64()
			}
			return res
		}
	}
	var idx int64
	switch i := i.(type) {
	case int64:
		idx = i
	case *Term:
		idx = m.concretize(i).Num().Int64()
	}
	// fast path
	ss := v.(*SymStr)
	p := idx
	for _, g := range ss.segs {
		if g.k == sLit {
			if p < int64(len(g.lit)) {
				if p < 0 {
					break
				}
				return uint64(g.lit[p])
			}
			p -= int64(len(g.lit))
		} else if g.k == sByte {
			if p == 0 {
				return g.t
			}
			p--
		} else {
			bs := m.bytesOf(v)
			if idx < 0 || idx >= int64(len(bs)) {
				panic(goPanic("runtime error: index out of range"))
			}
			return bs[idx]
		}
	}
	panic(goPanic("runtime error: index out of range"))
}

// lenBounds gives bounds on byte length (-1 upper = unknown)
func lenBounds(segs []seg) (int64, int64) {
	lo, hi := int64(0), int64(0)
	for _, g := range segs {
		switch g.k {
		case sLit:
			lo += int64(len(g.lit))
			if hi >= 0 {
				hi += int64(len(g.lit))
			}
		case sByte:
			lo++
			if hi >= 0 {
				hi++
			}
		case sDec:
			lo++
			if g.t.lo == nil || g.t.hi == nil {
				hi = -1
			} else if hi >= 0 {
				hi += int64(maxI(len(g.t.lo.String()), len(g.t.hi.String())))
			}
		case sFlt:
			lo++
			if hi >= 0 {
				hi += 26
			}
		case sOpq:
			if g.o.ln.lo != nil {
				lo += g.o.ln.lo.Int64()
			}
			if g.o.ln.hi == nil {
				hi = -1
			} else if hi >= 0 {
				hi += g.o.ln.hi.Int64()
			}
		}
	}
	return lo, hi
}

func isNumCh(c byte) bool {
	return c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'
}

// strEq decides equality of two strings symbolically.
func (m *Machine) strEq(x, y value) value {
	a, b := segsOf(x), segsOf(y)
	tt := m.tt
	var conds []*Term
	i, j := 0, 0
	var ar, br seg
	haveA, haveB := false, false
	next := func(s []seg, k *int, cur *seg, have *bool) bool {
		if *have {
			return true
		}
		if *k < len(s) {
			*cur = s[*k]
			*k++
			*have = true
			return true
		}
		return false
	}
	for {
		okA := next(a, &i, &ar, &haveA)
		okB := next(b, &j, &br, &haveB)
		if !okA && !okB {
			break
		}
		if !okA || !okB {
			// remaining must be empty
			var rest []seg
			if okA {
				rest = append([]seg{ar}, a[i:]...)
			} else {
				rest = append([]seg{br}, b[j:]...)
			}
			lo, _ := lenBounds(rest)
			if lo > 0 {
				return false
			}
			ln := m.term(m.strLen(mkStr(rest)))
			conds = append(conds, tt.eq(ln, tt.int64C(0)))
			break
		}
		if ar.k == sLit && br.k == sLit {
			n := len(ar.lit)
			if len(br.lit) < n {
				n = len(br.lit)
			}
			if ar.lit[:n] != br.lit[:n] {
				return false
			}
			ar.lit, br.lit = ar.lit[n:], br.lit[n:]
			haveA, haveB = ar.lit != "", br.lit != ""
			continue
		}
		if ar.k == br.k && ar.k != sLit && (ar.t != nil && ar.t == br.t || ar.o != nil && ar.o == br.o) {
			haveA, haveB = false, false
			continue
		}
		if ar.k == sByte && br.k == sByte {
			conds = append(conds, tt.eq(ar.t, br.t))
			haveA, haveB = false, false
			continue
		}
		if ar.k == sByte && br.k == sLit {
			conds = append(conds, tt.eq(ar.t, tt.int64C(int64(br.lit[0]))))
			haveA = false
			br.lit = br.lit[1:]
			haveB = br.lit != ""
			continue
		}
		if ar.k == sLit && br.k == sByte {
			conds = append(conds, tt.eq(br.t, tt.int64C(int64(ar.lit[0]))))
			haveB = false
			ar.lit = ar.lit[1:]
			haveA = ar.lit != ""
			continue
		}
		restA := append([]seg{ar}, a[i:]...)
		restB := append([]seg{br}, b[j:]...)
		la, ha := lenBounds(restA)
		lb, hb := lenBounds(restB)
		if ha >= 0 && ha < lb || hb >= 0 && hb < la {
			return false
		}
		numeric := func(k segKind) bool { return k == sDec || k == sFlt }
		delimited := func(rest []seg) bool { // number token followed by non-numeric literal or end
			return len(rest) == 1 || rest[1].k == sLit && !isNumCh(rest[1].lit[0])
		}
		if numeric(ar.k) && numeric(br.k) && delimited(restA) && delimited(restB) {
			conds = append(conds, tt.eq(ar.t, br.t))
			haveA, haveB = false, false
			continue
		}
		if numeric(br.k) && ar.k == sLit {
			// swap so that a has the hole
			a, b, i, j, ar, br, haveA, haveB = b, a, j, i, br, ar, haveB, haveA
			restA, restB = restB, restA
		}
		if numeric(ar.k) && br.k == sLit && delimited(restA) {
			n := 0
			for n < len(br.lit) && isNumCh(br.lit[n]) {
				n++
			}
			// the literal token must be delimited too
			if n == len(br.lit) && len(restB) > 1 {
				goto fallback
			}
			tok := br.lit[:n]
			if ar.k == sDec {
				v, ok := new(big.Int).SetString(tok, 10)
				if !ok || v.String() != tok {
					return false
				}
				conds = append(conds, tt.eq(ar.t, tt.intC(v)))
			} else {
				f, err := strconv.ParseFloat(tok, 64)
				if err != nil || fmtJSONFloat(f) != tok {
					return false
				}
				conds = append(conds, tt.eq(ar.t, tt.realC(f)))
			}
			haveA = false
			br.lit = br.lit[n:]
			haveB = br.lit != ""
			continue
		}
	fallback:
		// unrelated opaque contents: an uninterpreted but consistent equality
		ka, kb := (&SymStr{restA}).key(), (&SymStr{restB}).key()
		if kb < ka {
			ka, kb = kb, ka
		}
		k := ka + "=" + kb
		t, ok := m.strEqCache[k]
		if !ok {
			t = m.freshVar("streq", SBool)
			m.strEqCache[k] = t
			m.uncertain = true
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(pathEnd); !ok {
							panic(r)
						}
					}
				}()
				lx, ly := m.term(m.strLen(mkStr(restA))), m.term(m.strLen(mkStr(restB)))
				m.assertFact(tt.or(tt.not(t), tt.eq(lx, ly)))
			}()
		}
		conds = append(conds, t)
		break
	}
	if len(conds) == 0 {
		return true
	}
	return m.norm(tt.and(conds...))
}

// strCmp: -1,0,1 ordering with forking.
func (m *Machine) strLess(x, y value) value {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs < ys
	}
	a, b := m.bytesOf(x), m.bytesOf(y)
	tt := m.tt
	// lexicographic formula
	res := tt.boolC(len(a) < len(b))
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for k := n - 1; k >= 0; k-- {
		p, q := m.term(a[k]), m.term(b[k])
		res = tt.or(tt.ilt(p, q), tt.and(tt.eq(p, q), res))
	}
	return m.norm(res)
}

func fmtJSONFloat(f float64) string {
	if f == 0 {
		if math.Signbit(f) {
			return "-0"
		}
		return "0"
	}
	abs := math.Abs(f)
	format := byte('f')
	if abs < 1e-6 || abs >= 1e21 {
		format = 'e'
	}
	b := strconv.AppendFloat(nil, f, format, -1, 64)
	if format == 'e' {
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

// decSeg renders an integer value as text.
func (m *Machine) decText(v value) value {
	switch v := v.(type) {
	case int64:
		return strconv.FormatInt(v, 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case *Term:
		if v.sort == SInt {
			return mkStr([]seg{{k: sDec, t: v}})
		}
	}
	panic(m.unsupported("decText %T", v))
}

// fltText renders a float value (JSON/shortest form).
func (m *Machine) fltText(v value) value {
	switch v := v.(type) {
	case float64:
		return fmtJSONFloat(v)
	case *Term:
		if v.op == "to_real" {
			return mkStr([]seg{{k: sDec, t: v.args[0]}})
		}
		if v.grid != noGrid && v.grid <= 0 {
			return mkStr([]seg{{k: sDec, t: m.tt.toInt(v)}})
		}
		return mkStr([]seg{{k: sFlt, t: v}})
	}
	panic(m.unsupported("fltText %T", v))
}

func sortedKeys[V any](mp map[string]V) []string {
	ks := make([]string, 0, len(mp))
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
