package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

func (ex *Explorer) wantTrace() bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return len(ex.traces) < ex.maxTraces
}

// buildTrace reads a model for a completed path and the values it observed.
func (m *Machine) buildTrace() *trace {
	if m.unscripted || m.uncertain {
		return nil
	}
	// define every term first
	var pre func(v value)
	pre = func(v value) {
		switch v := v.(type) {
		case *Term:
			m.litOf(v)
		case *SymStr:
			for _, g := range v.segs {
				if g.t != nil {
					m.litOf(g.t)
				}
			}
		case []value:
			for _, x := range v {
				pre(x)
			}
		case iface:
			pre(v.v)
		case *mapObj:
			for _, e := range v.live() {
				pre(e.key)
				pre(e.val)
			}
		}
	}
	for _, o := range m.observed {
		pre(o.v)
	}
	sc := m.buildScript("", "")
	if sc == nil {
		return nil
	}
	tr := &trace{script: sc}
	if !m.relaxed {
		for _, o := range m.observed {
			tr.obs = append(tr.obs, o.name+"="+m.evalCanon(o.v))
		}
	}
	return tr
}

func (m *Machine) evalRat(t *Term) *big.Rat {
	if t.isConst {
		if t.sort == SInt {
			return new(big.Rat).SetInt(t.i)
		}
		return t.r
	}
	l := m.litOf(t)
	rats, _, err := m.solver.values([]string{l})
	if err != nil || rats[l] == nil {
		panic("no value")
	}
	return rats[l]
}

func (m *Machine) evalStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	var sb strings.Builder
	for _, g := range v.(*SymStr).segs {
		switch g.k {
		case sLit:
			sb.WriteString(g.lit)
		case sByte:
			sb.WriteByte(byte(m.evalRat(g.t).Num().Int64()))
		case sDec:
			sb.WriteString(m.evalRat(g.t).Num().String())
		case sFlt:
			f, _ := m.evalRat(g.t).Float64()
			sb.WriteString(fmtJSONFloat(f))
		default:
			panic("opaque")
		}
	}
	return sb.String()
}

// evalCanon renders a value under the current model, in the format of
// zzverif.canon.
func (m *Machine) evalCanon(v value) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string, *SymStr:
		return strconv.Quote(m.evalStr(v))
	case *Term:
		switch v.sort {
		case SBool:
			l := m.litOf(v)
			_, bs, err := m.solver.values([]string{l})
			if err != nil {
				panic("no value")
			}
			return strconv.FormatBool(bs[l])
		case SInt:
			return m.evalRat(v).Num().String()
		default:
			f, _ := m.evalRat(v).Float64()
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
	case iface:
		if v.t == nil {
			return "null"
		}
		if m.methodByName(v.t, "Error") != nil {
			return "error"
		}
		return m.evalCanon(v.v)
	case []value:
		var p []string
		for _, x := range v {
			p = append(p, m.evalCanon(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case *mapObj:
		var p []string
		for _, e := range v.live() {
			p = append(p, strconv.Quote(m.evalStr(e.key))+":"+m.evalCanon(e.val))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}"
	}
	panic("canon")
}
