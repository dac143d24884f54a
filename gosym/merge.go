package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Path merging: a call of a function without side effects is explored on its
// own and the results of its paths are joined into one symbolic value, so that
// the branches inside it do not multiply the paths of its caller.  Branch
// conditions are decided by the solver under the caller's path condition plus
// the conditions taken inside the call.

type mergeState struct {
	local  []*Term // conditions taken on the current inner path
	prefix []decision
	pos    int
	trace  []decision
	queue  [][]decision
}

// mergeAbort leaves the attempt; the call is then executed the ordinary way.
type mergeAbort struct{ why string }

const maxInnerPaths = 160

var mergeAlways = map[string]bool{
	harnessPkg + ".Valid":          true,
	harnessPkg + ".SameJSON":       true,
	harnessPkg + ".OracleValidate": true,
}

func (m *Machine) mergeable(fn *ssa.Function, in *fnInfo, args []value) bool {
	if in.merge == 0 {
		in.merge = 1
		if os.Getenv("GOSYM_NOMERGE") == "" && (mergeAlways[fn.String()] || pureFn(fn, map[*ssa.Function]bool{})) {
			in.merge = 2
		}
	}
	if in.merge != 2 {
		return false
	}
	if mergeAlways[fn.String()] {
		return true
	}
	for _, a := range args {
		if _, ok := a.(*Term); ok {
			return true
		}
	}
	return false
}

func scalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsNumeric) != 0 && b.Info()&types.IsComplex == 0
}

// pureFn: branches, calls only pure functions, writes nothing but its own
// variables and returns scalars.
func pureFn(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[fn] || len(fn.Blocks) < 2 && len(busy) == 0 || len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 || fn.Recover != nil {
		return false
	}
	if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !scalar(res.At(i).Type()) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if !ownAddr(i.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Range, *ssa.Next:
				return false
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				switch f := i.Call.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if !pureFn(f, busy) && !(len(f.Blocks) == 1 && pureLeaf(f)) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

// pureLeaf: a single block computing from its arguments.
func pureLeaf(fn *ssa.Function) bool {
	for _, ins := range fn.Blocks[0].Instrs {
		switch ins.(type) {
		case *ssa.BinOp, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Field:
		default:
			return false
		}
	}
	return true
}

func ownAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

// mergeCall tries to execute the call merged; ok is false when the call has to
// run the ordinary way.
func (m *Machine) mergeCall(caller *frame, fn *ssa.Function, in *fnInfo, args []value) (res value, ok bool) {
	var recorded *decision
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.record(d)
		if d.k == 'm' {
			return nil, false
		}
		if d.k != 'M' {
			panic(pathEnd{"incomplete", fmt.Sprintf("replay divergence (merge of %s vs %c)", fn, d.k)})
		}
		recorded = &d
	} else if in.mergeFails >= 6 {
		m.record(decision{k: 'm'})
		return nil, false
	}
	mark, nst, depth := len(m.undo), len(m.stack), m.depth
	unc, rel := m.uncertain, m.relaxed
	st := &mergeState{}
	if recorded != nil {
		st.queue = recorded.sub
	} else {
		st.queue = [][]decision{nil}
	}
	type outcome struct {
		cond *Term
		v    value
	}
	var outs []outcome
	var paths [][]decision
	fail := ""
	m.mg = st
	run := func(p []decision) {
		defer func() {
			m.stack, m.depth = m.stack[:nst], depth
			m.rollbackTo(mark)
			if r := recover(); r != nil {
				switch r := r.(type) {
				case mergeAbort:
					fail = r.why
				case pathEnd:
					if r.kind == "budget" || r.kind == "dead" {
						m.mg = nil
						panic(r)
					}
					if r.kind != "assume" {
						fail = r.kind + " " + r.msg
					}
				case targetPanic:
					fail = "panic"
				default:
					fail = fmt.Sprint(r)
				}
			}
		}()
		st.prefix, st.pos, st.trace, st.local = p, 0, nil, nil
		v := m.callBody(caller, fn, in, args, nil)
		outs = append(outs, outcome{m.tt.and(st.local...), v})
		paths = append(paths, st.trace)
	}
	if recorded != nil {
		for _, p := range recorded.sub {
			run(p)
			if fail != "" {
				m.mg = nil
				panic(pathEnd{"incomplete", "replay divergence (merge of " + fn.String() + ": " + fail + ")"})
			}
		}
	} else {
		for n := 0; len(st.queue) > 0 && fail == ""; n++ {
			if n >= maxInnerPaths {
				fail = "too many paths"
				break
			}
			p := st.queue[len(st.queue)-1]
			st.queue = st.queue[:len(st.queue)-1]
			run(p)
		}
		if fail == "" && len(outs) == 0 {
			fail = "no path"
		}
	}
	m.mg = nil
	if fail == "" {
		res, ok = outs[len(outs)-1].v, true
		for i := len(outs) - 2; i >= 0 && ok; i-- {
			res, ok = m.join(outs[i].cond, outs[i].v, res)
		}
		if !ok {
			fail = "results cannot be joined"
		}
	}
	if fail != "" {
		if recorded != nil {
			panic(pathEnd{"incomplete", "replay divergence (merge of " + fn.String() + ": " + fail + ")"})
		}
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "merge of", fn, "abandoned:", fail)
		}
		in.mergeFails++
		m.uncertain, m.relaxed = unc, rel
		m.record(decision{k: 'm'})
		return nil, false
	}
	if recorded == nil {
		m.record(decision{k: 'M', sub: paths})
	}
	return res, true
}

func (m *Machine) rollbackTo(mark int) {
	for i := len(m.undo) - 1; i >= mark; i-- {
		u := m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:mark]
}

// mergeBranch is branch inside a merged call.
func (m *Machine) mergeBranch(c *Term) bool {
	st := m.mg
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		st.trace = append(st.trace, d)
		switch d.k {
		case 'T':
			st.local = append(st.local, c)
			return true
		case 'F':
			st.local = append(st.local, m.tt.not(c))
			return false
		case 't':
			return true
		case 'f':
			return false
		}
		panic(mergeAbort{"replay divergence"})
	}
	if m.sat(c) == "unsat" {
		st.trace = append(st.trace, decision{k: 'f'})
		return false
	}
	if m.sat(m.tt.not(c)) == "unsat" {
		st.trace = append(st.trace, decision{k: 't'})
		return true
	}
	alt := make([]decision, len(st.trace)+1)
	copy(alt, st.trace)
	alt[len(st.trace)] = decision{k: 'F'}
	st.queue = append(st.queue, alt)
	st.trace = append(st.trace, decision{k: 'T'})
	st.local = append(st.local, c)
	return true
}

// join builds "if c then a else b".
func (m *Machine) join(c *Term, a, b value) (value, bool) {
	if ta, ok := a.(tuple); ok {
		tb, ok := b.(tuple)
		if !ok || len(ta) != len(tb) {
			return nil, false
		}
		r := make(tuple, len(ta))
		for i := range ta {
			x, ok := m.join(c, ta[i], tb[i])
			if !ok {
				return nil, false
			}
			r[i] = x
		}
		return r, true
	}
	x, y := m.joinTerm(a), m.joinTerm(b)
	if x == nil || y == nil || x.sort != y.sort {
		return nil, false
	}
	if x == y {
		return a, true
	}
	if !x.isConst || !y.isConst || x.sort != SInt {
		return m.norm(m.tt.ite(c, x, y)), true
	}
	// keep the kind of machine integers: symbolic integers carry no kind
	return m.tt.ite(c, x, y), true
}

func (m *Machine) joinTerm(v value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return m.tt.boolC(v)
	case int64:
		return m.tt.int64C(v)
	case uint64:
		return m.tt.uint64C(v)
	case float64:
		if v != v || v-v != 0 {
			return nil
		}
		return m.tt.realC(v)
	}
	return nil
}
