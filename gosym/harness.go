package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// addHarness binds the intrinsics of package zzverif to the engine.  Their Go
// bodies serve the replay of a counterexample on the real code.
func addHarness(N map[string]nativeImpl) {
	n := func(name string, f func(m *Machine, a []value) value) { N[harnessPkg+"."+name] = nat(f) }
	in := func(m *Machine, name value, kind string, v value) value {
		m.inputs = append(m.inputs, inputRec{name.(string), kind, v})
		return v
	}
	n("Int", func(m *Machine, a []value) value {
		lo, hi := a[1].(int64), a[2].(int64)
		m.noteBound("input "+clean(a[0].(string)), fmt.Sprintf("every integer of [%d,%d]", lo, hi))
		if lo == hi {
			return in(m, a[0], "int", lo)
		}
		return in(m, a[0], "int", m.freshInt(clean(a[0].(string)), bigInt(lo), bigInt(hi)))
	})
	n("Bool", func(m *Machine, a []value) value {
		return in(m, a[0], "bool", m.choose(2) == 1)
	})
	n("SymBool", func(m *Machine, a []value) value {
		return in(m, a[0], "bool", m.freshVar(clean(a[0].(string)), SBool))
	})
	n("Choice", func(m *Machine, a []value) value {
		m.noteBound("choice "+clean(a[0].(string)), fmt.Sprintf("all %d alternatives", a[1]))
		return in(m, a[0], "int", int64(m.choose(int(a[1].(int64)))))
	})
	// Float: k/2^grid with k ranging over all integers of the interval
	n("Float", func(m *Machine, a []value) value {
		lo, hi, g := a[1].(float64), a[2].(float64), int(a[3].(int64))
		m.noteBound("input "+clean(a[0].(string)), fmt.Sprintf("every multiple of 2^-%d of [%g,%g]", g, lo, hi))
		scale := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(g)))
		k := m.freshInt(clean(a[0].(string)), ratFloor(new(big.Rat).Mul(new(big.Rat).SetFloat64(lo), scale)),
			ratFloor(new(big.Rat).Mul(new(big.Rat).SetFloat64(hi), scale)))
		var t *Term = m.tt.toReal(k)
		if g != 0 {
			t = m.tt.rmul(m.tt.ratC(new(big.Rat).Inv(scale)), t)
		}
		if len(m.inAnchors) < 6 {
			m.inAnchors = append(m.inAnchors, t)
		}
		return in(m, a[0], "float", t)
	})
	n("Text", func(m *Machine, a []value) value {
		m.noteBound("input "+clean(a[0].(string)), fmt.Sprintf("every string of at most %d bytes over %q", a[1], a[2]))
		ln := int64(m.choose(int(a[1].(int64)) + 1))
		alpha := a[2].(string)
		bs := make([]value, ln)
		for i := range bs {
			bs[i] = m.alphaByte(clean(a[0].(string)), alpha)
		}
		return in(m, a[0], "text", m.fromBytes(bs))
	})
	n("TextN", func(m *Machine, a []value) value {
		m.noteBound("input "+clean(a[0].(string)), fmt.Sprintf("every string of %d bytes over %q", a[1], a[2]))
		bs := make([]value, a[1].(int64))
		for i := range bs {
			bs[i] = m.alphaByte(clean(a[0].(string)), a[2].(string))
		}
		return in(m, a[0], "text", m.fromBytes(bs))
	})
	n("Assume", func(m *Machine, a []value) value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{"assume", ""})
			}
		case *Term:
			if m.sat(c) == "unsat" {
				panic(pathEnd{"assume", ""})
			}
			m.assert(c)
		}
		return nil
	})
	n("Check", func(m *Machine, a []value) value {
		m.check(a[0].(string), a[1], m.textOf(a[2]))
		return nil
	})
	n("Bound", func(m *Machine, a []value) value {
		m.noteBound(a[0].(string), a[1].(string))
		return nil
	})
	n("Note", func(m *Machine, a []value) value {
		m.notes = append(m.notes, m.textOf(a[0]))
		return nil
	})
	n("Expect", func(m *Machine, a []value) value {
		l := m.textOf(a[0])
		m.ex.mu.Lock()
		_, known := m.ex.expected[l]
		if !known {
			m.ex.expected[l] = &expectation{}
		}
		m.ex.mu.Unlock()
		if !known {
			if sc := m.buildScriptLocked(l); sc != nil {
				m.ex.mu.Lock()
				m.ex.expected[l].script = sc
				m.ex.mu.Unlock()
			}
		}
		return nil
	})
	n("Cover", func(m *Machine, a []value) value {
		l := m.textOf(a[0])
		m.ex.mu.Lock()
		done := m.ex.reached[l] > 0
		m.ex.mu.Unlock()
		if done {
			return nil
		}
		switch c := a[1].(type) {
		case bool:
			if !c || m.solver.check() != "sat" {
				return nil
			}
		case *Term:
			if m.sat(c) != "sat" {
				return nil
			}
		}
		m.ex.mu.Lock()
		m.ex.reached[l]++
		m.ex.mu.Unlock()
		return nil
	})
	n("Observe", func(m *Machine, a []value) value {
		m.observed = append(m.observed, obsRec{a[0].(string), a[1]})
		return nil
	})
	n("Thorough", func(m *Machine, a []value) value { return m.ex.tier == "thorough" })
	// FakerConforms: texts of the faker library conform to what they are said to be
	n("FakerConforms", func(m *Machine, a []value) value {
		format, ok := m.flatString(a[0])
		if !ok {
			return tuple{false, false}
		}
		t, ok := m.fakerConforms([]string{format}, a[1])
		return tuple{t, ok}
	})
	n("Symbolic", func(m *Machine, a []value) value { return true })
	n("ReverseMaps", func(m *Machine, a []value) value {
		old := m.hstate["reverseMaps"]
		m.hstate["reverseMaps"] = a[0].(bool)
		_ = old
		return nil
	})
	n("newSource", func(m *Machine, a []value) value {
		m.nscripted++
		m.nsrc++
		o := &randObj{id: m.nscripted, log: &randLog{}, scripted: true}
		t := m.P.rngSourceT()
		return iface{t: t, v: cell(&nativeObj{"rand", o})}
	})
	// IsMultiple: exact divisibility
	n("IsMultiple", func(m *Machine, a []value) value {
		tt := m.tt
		x, ok1 := a[0].(float64)
		d, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return isMultipleDec(x, d)
		}
		t := m.exactly(m.term(a[0]))
		if ok2 && t.isConst {
			f, _ := t.r.Float64()
			return isMultipleDec(f, d)
		}
		if ok2 && d != 0 && t.tab != nil && m.fixed[t.tab.v] == nil {
			return m.tabPred(t.tab.v, t.tab.lo, len(t.tab.f), func(i int) bool { return isMultipleDec(t.tab.f[i], d) })
		}
		if !ok2 {
			d = m.concFloat(a[1].(*Term))
		}
		if d == 0 {
			return false
		}
		if s := m.scaled(t); s != nil && t.grid != noGrid {
			// t = s*2^-g ; multiple of d=p/q  <=>  s*q mod (p*2^g) = 0
			r := decRat(d)
			p, q := new(big.Int).Abs(r.Num()), r.Denom()
			sq := tt.imul(tt.intC(q), s)
			mod := p
			if t.grid > 0 {
				mod = new(big.Int).Lsh(p, uint(t.grid))
			} else {
				sq = tt.imul(tt.intC(new(big.Int).Lsh(big.NewInt(1), uint(-t.grid))), sq)
			}
			return m.norm(tt.eq(tt.imodEuc(sq, tt.intC(mod)), tt.int64C(0)))
		}
		e := tt.rmul(tt.ratC(new(big.Rat).Inv(decRat(d))), t)
		return m.norm(tt.eq(tt.toReal(tt.toInt(e)), e))
	})
	// ---- the outside world
	n("FSFile", func(m *Machine, a []value) value { m.ext().files[a[0].(string)] = a[1]; return nil })
	n("FSLink", func(m *Machine, a []value) value { m.ext().links[a[0].(string)] = a[1].(string); return nil })
	n("FSCwd", func(m *Machine, a []value) value { m.ext().cwd = a[0].(string); return nil })
	n("HTTPServe", func(m *Machine, a []value) value {
		m.ext().https[a[0].(string)] = &httpResp{status: a[1], redirect: a[2].(string), body: a[3]}
		return nil
	})
	n("Draws", func(m *Machine, a []value) value { return int64(len(m.draws)) })
	n("Accesses", func(m *Machine, a []value) value {
		out := []value{}
		for _, x := range m.ext().log {
			out = append(out, concat(x.kind+" ", x.what))
		}
		return out
	})
	n("SetStdin", func(m *Machine, a []value) value { m.ext().stdin, m.ext().piped = a[0], a[1].(bool); return nil })
	n("captureOut", func(m *Machine, a []value) value { m.ext().stdout = nil; return nil })
	n("Stdout", func(m *Machine, a []value) value { return concat(append([]value{""}, m.ext().stdout...)...) })
	n("FSRead", func(m *Machine, a []value) value {
		e := m.ext()
		p, _ := m.flatString(a[0])
		if c, ok := e.written[e.target(p)]; ok {
			return tuple{c, true}
		}
		if r, ok := e.resolve(p); ok {
			if c, ok := e.files[r]; ok {
				return tuple{c, true}
			}
		}
		return tuple{"", false}
	})
}

type expectation struct{ script *Script }
type obsRec struct {
	name string
	v    value
}

func (m *Machine) buildScriptLocked(label string) *Script {
	return m.buildScript(label, "")
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func ratFloor(r *big.Rat) *big.Int {
	q := new(big.Int)
	q.Div(r.Num(), r.Denom())
	return q
}

// decRat is the decimal number a float64 is written as.
func decRat(f float64) *big.Rat {
	r, _ := new(big.Rat).SetString(fmt.Sprint(f))
	return r
}

func isMultipleDec(x, d float64) bool {
	if d == 0 {
		return false
	}
	return new(big.Rat).Quo(decRat(x), decRat(d)).IsInt()
}

func (m *Machine) alphaByte(name, alpha string) value {
	if len(alpha) == 1 {
		return uint64(alpha[0])
	}
	bs := []byte(alpha)
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	t := m.freshInt(name, bigInt(int64(bs[0])), bigInt(int64(bs[len(bs)-1])))
	tt := m.tt
	var alts []*Term
	for i := 0; i < len(bs); {
		j := i
		for j+1 < len(bs) && bs[j+1] <= bs[j]+1 {
			j++
		}
		alts = append(alts, tt.and(tt.ile(tt.int64C(int64(bs[i])), t), tt.ile(t, tt.int64C(int64(bs[j])))))
		i = j + 1
	}
	if len(alts) > 1 {
		m.assert(tt.or(alts...))
	}
	return t
}

// textOf renders a value for humans.
func (m *Machine) textOf(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, g := range s.segs {
			switch g.k {
			case sLit:
				sb.WriteString(g.lit)
			case sOpq:
				sb.WriteString("<" + g.o.name + ">")
			default:
				sb.WriteString("?")
			}
		}
		return sb.String()
	}
	return fmt.Sprint(v)
}

// trace is a completed path with a model, replayed on the real code to check
// that both agree.
type trace struct {
	script *Script
	obs    []string
}

// fakerConforms judges a text that contains a text of the faker library.
func (m *Machine) fakerConforms(formats []string, text value) (value, bool) {
	ss, ok := text.(*SymStr)
	if !ok {
		return false, false
	}
	var o *opaque
	for _, g := range ss.segs {
		if g.k == sOpq {
			o = g.o
		}
	}
	if o == nil {
		return false, false
	}
	if len(ss.segs) == 1 && o.info != "" {
		for _, format := range formats {
			for _, f := range fakerFormats[o.info] {
				if f == format {
					return true, true
				}
			}
			for _, f := range exactFormats {
				if f == format {
					return false, true
				}
			}
		}
	}
	// nothing is known about it
	key := "conforms|" + ss.key() + "|" + strings.Join(formats, "|")
	t, ok := m.strEqCache[key]
	if !ok {
		t = m.freshVar("conforms", SBool)
		m.strEqCache[key] = t
		m.uncertain = true
	}
	return t, true
}

// validatorFormats names the formats a validator of the code under test is
// registered for.
func (m *Machine) validatorFormats(fn *ssa.Function) []string {
	var out []string
	for _, mem := range fn.Pkg.Members {
		g, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		if mp, ok := (*m.global(g)).(*mapObj); ok && mp != nil {
			for _, e := range mp.entries {
				if f, ok := e.val.(*ssa.Function); ok && f == fn && !e.dead && e.ckey != "" {
					if k, ok := e.key.(string); ok {
						out = append(out, k)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// fakerFormats lists the formats the texts of the faker library follow.
var fakerFormats = map[string][]string{
	"email":    {"email", "idn-email"},
	"hostname": {"hostname", "idn-hostname", "uri-reference", "iri-reference", "uriref"},
	"ipv4":     {"ipv4", "ip-address", "hostname", "uri-reference", "iri-reference", "uriref"},
	"ipv6":     {"ipv6"},
	"uuid":     {"uuid", "hostname", "uri-reference", "iri-reference", "uriref"},
	"uri":      {"uri", "iri", "uri-reference", "iri-reference", "uriref"},
}

// exactFormats are those nothing else of the faker library follows.
var exactFormats = []string{"email", "idn-email", "ipv4", "ip-address", "ipv6", "uuid", "date", "time", "date-time", "duration", "period"}

// judgeOpaque replaces a format validator for texts of the faker library, whose
// bytes are not known.
func judgeOpaque(m *Machine, c *callCtx) (value, bool) {
	v := c.args[0]
	if it, ok := v.(iface); ok {
		v = it.v
	}
	ss, ok := v.(*SymStr)
	if !ok {
		return nil, false
	}
	for _, g := range ss.segs {
		if g.k == sOpq {
			t, ok := m.fakerConforms(m.validatorFormats(c.fn), v)
			if ok {
				m.noteBound("format validators", "on texts of the faker library are taken to answer what that library promises")
			}
			return t, ok
		}
	}
	return nil, false
}
