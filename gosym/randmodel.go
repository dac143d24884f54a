package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// randObj is a random source: every draw is a fresh symbolic value.
type randObj struct {
	id     int
	log    *randLog
	cursor int
	// draws of scripted sources can be steered in a replay, others cannot
	scripted bool
}

func (P *Program) rngSourceT() types.Type {
	return types.NewPointer(P.pkgs["math/rand"].Pkg.Scope().Lookup("rngSource").Type())
}

type randLog struct {
	recs []randRec
}
type randRec struct {
	kind string
	n    value
	v    value
}

func (m *Machine) newRand(seedKey string, scripted bool) *randObj {
	if seedKey != "" {
		if o := m.srcBySd[seedKey]; o != nil {
			return &randObj{id: o.id, log: o.log, scripted: scripted}
		}
	}
	m.nsrc++
	o := &randObj{id: m.nsrc, log: &randLog{}, scripted: scripted}
	if seedKey != "" {
		m.srcBySd[seedKey] = o
	}
	return o
}

// draw returns the value of the next draw of the given kind; mk creates it
// when the source has not been asked for it before.
func (m *Machine) draw(o *randObj, kind string, n value, mk func() value) value {
	if o.cursor < len(o.log.recs) {
		r := o.log.recs[o.cursor]
		same := r.kind == kind
		if same {
			if t, ok := r.n.(*Term); ok {
				same = value(t) == n
			} else {
				_, isT := n.(*Term)
				same = !isT && r.n == n
			}
		}
		if same {
			o.cursor++
			return r.v
		}
		// the streams diverge: what follows is unrelated
		o.log = &randLog{}
		o.cursor = 0
	}
	v := mk()
	o.log.recs = append(o.log.recs, randRec{kind, n, v})
	o.cursor++
	if !o.scripted {
		m.unscripted = true
	} else {
		m.draws = append(m.draws, drawRec{src: o.id, kind: kind, n: n, v: v})
	}
	return v
}

func (m *Machine) intn(o *randObj, n value) value {
	tt := m.tt
	switch x := n.(type) {
	case int64:
		if x <= 0 {
			panic(goPanic("invalid argument to Intn"))
		}
		return m.draw(o, "intn", n, func() value {
			if x == 1 {
				return int64(0)
			}
			return m.freshInt("intn", big0, bigInt(x-1))
		})
	case *Term:
		if m.branch(tt.ile(x, tt.int64C(0))) {
			panic(goPanic("invalid argument to Intn"))
		}
		return m.draw(o, "intn", n, func() value {
			var hi *big.Int
			if x.hi != nil {
				hi = new(big.Int).Sub(x.hi, big.NewInt(1))
			}
			v := m.freshInt("intn", big0, hi)
			m.assert(tt.ilt(v, x))
			return v
		})
	}
	panic(m.unsupported("Intn of %T", n))
}

func (m *Machine) float64Draw(o *randObj) value {
	return m.draw(o, "f64", nil, func() value {
		u := m.freshVar("unit", SReal)
		m.setRange(u, 0, 1)
		m.assert(m.tt.not(m.tt.mk("<=", SBool, m.tt.realC(1), u)))
		return u
	})
}

func randOf(m *Machine, v value) *randObj {
	p, ok := v.(*value)
	if !ok || p == nil {
		panic(m.rtError("invalid memory address or nil pointer dereference"))
	}
	if o, ok := (*p).(*nativeObj); ok && o != nil && o.kind == "rand" {
		return o.v.(*randObj)
	}
	panic(m.unsupported("unknown random source"))
}

func addRand(N map[string]nativeImpl) {
	n := func(name string, f func(m *Machine, a []value) value) { N[name] = nat(f) }
	seedKey := func(m *Machine, v value) string {
		switch x := v.(type) {
		case int64:
			return fmt.Sprint(x)
		case *Term:
			return fmt.Sprintf("t%d", x.id)
		}
		return ""
	}
	srcIface := func(m *Machine, o *randObj) value {
		return iface{t: m.P.rngSourceT(), v: cell(&nativeObj{"rand", o})}
	}
	n("math/rand.NewSource", func(m *Machine, a []value) value {
		key := seedKey(m, a[0])
		if m.srcBySd[key] == nil {
			// another seed that may be the same number
			for i, s := range m.seeds {
				if (isSym(s) || isSym(a[0])) && m.truth(m.equals(s, a[0])) {
					key = m.seedKeys[i]
					break
				}
			}
			m.seeds, m.seedKeys = append(m.seeds, a[0]), append(m.seedKeys, key)
		}
		return srcIface(m, m.newRand(key, false))
	})
	n("(*math/rand.rngSource).Int63", func(m *Machine, a []value) value { return m.int63(randOf(m, a[0])) })
	n("(*math/rand.rngSource).Seed", func(m *Machine, a []value) value { return nil })
	n("math/rand.New", func(m *Machine, a []value) value {
		it := a[0].(iface)
		if it.t == nil {
			panic(m.rtError("nil source"))
		}
		if p, ok := it.v.(*value); ok && p != nil {
			if o, ok := (*p).(*nativeObj); ok && o.kind == "rand" {
				return cell(o)
			}
		}
		// any other source implementation: unconstrained draws
		return cell(&nativeObj{"rand", m.newRand("", false)})
	})
	for _, k := range []string{"Intn", "Int31n", "Int63n"} {
		n("(*math/rand.Rand)."+k, func(m *Machine, a []value) value { return m.intn(randOf(m, a[0]), a[1]) })
		n("math/rand."+k, func(m *Machine, a []value) value { return m.intn(m.newRand("", false), a[0]) })
	}
	n("(*math/rand.Rand).Float64", func(m *Machine, a []value) value { return m.float64Draw(randOf(m, a[0])) })
	n("(*math/rand.Rand).Int63", func(m *Machine, a []value) value { return m.int63(randOf(m, a[0])) })
	n("(*math/rand.Rand).Int", func(m *Machine, a []value) value { return m.int63(randOf(m, a[0])) })
	n("(*math/rand.Rand).Seed", func(m *Machine, a []value) value { return nil })
	n("math/rand.Int63", func(m *Machine, a []value) value { return m.int63(m.newRand("", false)) })
	n("math/rand.Int", func(m *Machine, a []value) value { return m.int63(m.newRand("", false)) })
	n("math/rand.Float64", func(m *Machine, a []value) value { return m.float64Draw(m.newRand("", false)) })
	n("math/rand.Seed", func(m *Machine, a []value) value { return nil })
	n("(*math/rand.Rand).Perm", func(m *Machine, a []value) value {
		// as in the standard library: n draws, swap-insert
		cnt := m.concInt(a[1])
		o := randOf(m, a[0])
		s := make([]value, cnt)
		for i := int64(0); i < cnt; i++ {
			j := m.concInt(m.intn(o, i+1))
			s[i] = s[j]
			s[j] = i
		}
		return s
	})
	n("(*math/rand.Rand).Shuffle", func(m *Machine, a []value) value {
		cnt := m.concInt(a[1])
		o := randOf(m, a[0])
		for i := cnt - 1; i > 0; i-- {
			j := m.concInt(m.intn(o, i+1))
			m.call(nil, a[2], []value{i, j})
		}
		return nil
	})
}

func (m *Machine) int63(o *randObj) value {
	return m.draw(o, "int63", nil, func() value {
		return m.freshInt("int63", big0, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1)))
	})
}

// permute returns the elements in an arbitrary order (forks); beyond four
// elements only rotations are explored, which is recorded as a bound.
func (m *Machine) permute(s []value) []value {
	out := append([]value{}, s...)
	if len(s) > 1 {
		m.unscripted = true
	}
	if len(s) <= 4 {
		for i := 0; i < len(out)-1; i++ {
			j := i + m.choose(len(out)-i)
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	k := m.choose(len(s))
	m.noteBound("shuffle", "shuffles of more than 4 elements: rotations only")
	return append(append([]value{}, s[k:]...), s[:k]...)
}

func (m *Machine) noteBound(k, v string) {
	if m.noted[k] {
		return
	}
	if m.noted == nil {
		m.noted = map[string]bool{}
	}
	m.noted[k] = true
	m.ex.mu.Lock()
	m.ex.bounds[k] = v
	m.ex.mu.Unlock()
}

var _ = strings.Contains
