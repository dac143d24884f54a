package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- program

// Program is the shared, read-only view of the code under analysis.
type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	sizes     types.Sizes
	natives   map[string]nativeImpl
	byName    sync.Map
	withHooks bool
}

type nativeImpl func(m *Machine, c *callCtx) (value, bool)

type callCtx struct {
	fn   *ssa.Function
	args []value
	fr   *frame
}

// ---------------------------------------------------------------- decisions

type decision struct {
	k   byte // T F t f (branches; lower case: forced)  E N e (concretisation)  C (choice)
	v   *big.Rat
	n   int
	sub [][]decision // M (merged call, with its inner paths)  m (not merged)
}

type pathEnd struct {
	kind string // assume, incomplete, done, steps, depth
	msg  string
}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v   value // iface
	msg string
}

type candidate struct {
	label   string
	detail  string
	script  *Script
	order   int
	harness string
	cover   bool
}

// Script is what a replay needs to follow the same path on the real code.
type Script struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Label   string   `json:"label"`
	Detail  string   `json:"detail"`
	Inputs  []Input  `json:"inputs"`
	Draws   []Draw   `json:"draws"`
	Notes   []string `json:"notes,omitempty"`
}
type Input struct {
	Name string  `json:"name"`
	Kind string  `json:"kind"`
	I    int64   `json:"i,omitempty"`
	F    float64 `json:"f,omitempty"`
	S    string  `json:"s,omitempty"`
}
type Draw struct {
	Src  int     `json:"src"`
	Kind string  `json:"kind"` // intn | f64
	N    int64   `json:"n,omitempty"`
	V    int64   `json:"v,omitempty"`
	F    float64 `json:"f,omitempty"`
}

type inputRec struct {
	name, kind string
	v          value
}
type drawRec struct {
	src  int
	kind string
	n    value
	v    value
	lo   *Term // for f64: aux product info
	rng  *Term
	prod *Term
}

// ---------------------------------------------------------------- machine

type undoRec struct {
	p   *value
	old value
	f   func()
}

type Machine struct {
	noted      map[string]bool
	mg         *mergeState
	P          *Program
	ex         *Explorer
	id         int
	solver     *Solver
	tt         *termTable
	globals    map[*ssa.Global]*value
	inited     map[*ssa.Package]int
	inInit     int
	infos      map[*ssa.Function]*fnInfo
	mcache     map[string]*ssa.Function
	undo       []undoRec
	emitBuf    []string
	steps      int64
	depth      int
	prefix     []decision
	pos        int
	trace      []decision
	nvar       int
	nOpaque    int
	anchors    []*Term
	fixed      map[*Term]*big.Rat // variables enumerated on this path
	inAnchors  []*Term            // inputs: exact floats
	inputs     []inputRec
	draws      []drawRec
	nsrc       int
	srcBySd    map[string]*randObj
	seeds      []value
	seedKeys   []string
	notes      []string
	strEqCache map[string]*Term
	uncertain  bool
	curFns     map[*ssa.Function]bool
	replayLog  []string
	stack      []*ssa.Function
	hstate     map[string]any
	concLimit  int
	pathSteps  int64
	rngFork    bool
	schemaSeq  int
	extern     *externState
	nscripted  int
	unscripted bool // randomness that a replay cannot steer was used
	relaxed    bool // a float rounding was over-approximated
	observed   []obsRec
}

func (m *Machine) onUndo(f func()) {
	if m.inInit > 0 {
		return
	}
	m.undo = append(m.undo, undoRec{f: f})
}

func (m *Machine) setCell(p *value, v value) {
	if m.inInit == 0 {
		m.undo = append(m.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:0]
}

func goPanic(msg string) targetPanic { return targetPanic{msg: msg} }

func (m *Machine) unsupported(f string, a ...any) pathEnd {
	msg := fmt.Sprintf(f, a...)
	where := ""
	for i := len(m.stack) - 1; i >= 0 && i > len(m.stack)-5; i-- {
		where += " < " + m.stack[i].String()
	}
	return pathEnd{"incomplete", msg + where}
}

func (m *Machine) freshVar(name string, s Sort) *Term {
	m.nvar++
	return m.tt.fresh(fmt.Sprintf("%s_%d", name, m.nvar), s)
}

func (m *Machine) freshInt(name string, lo, hi *big.Int) *Term {
	t := m.freshVar(name, SInt)
	t.lo, t.hi = lo, hi
	if lo != nil {
		m.assertFact(m.tt.mk("<=", SBool, m.tt.intC(lo), t))
	}
	if hi != nil {
		m.assertFact(m.tt.mk("<=", SBool, t, m.tt.intC(hi)))
	}
	return t
}

// setRange bounds a fresh real variable.
func (m *Machine) setRange(t *Term, lo, hi float64) {
	if !math.IsInf(lo, 0) {
		m.assert(m.tt.mk("<=", SBool, m.tt.realC(lo), t))
	}
	if !math.IsInf(hi, 0) {
		m.assert(m.tt.mk("<=", SBool, t, m.tt.realC(hi)))
	}
	t.rlo, t.rhi = lo, hi
}

func (m *Machine) litOf(t *Term) string {
	return m.tt.ref(t, func(s string) { m.solver.send(s) })
}

// assertFact adds a statement that holds on every path.
func (m *Machine) assertFact(t *Term) {
	mg := m.mg
	m.mg = nil
	m.assert(t)
	m.mg = mg
}

// assert adds t to the path condition.
func (m *Machine) assert(t *Term) {
	if m.mg != nil && len(m.mg.local) > 0 {
		if t.isConst && !t.b {
			panic(mergeAbort{"infeasible"})
		}
		t = m.tt.or(m.tt.not(m.tt.and(m.mg.local...)), t)
	}
	if t.isConst {
		if !t.b {
			panic(pathEnd{"assume", "false"})
		}
		return
	}
	l := m.litOf(t)
	m.solver.send("(assert " + l + ")")
}

func (m *Machine) sat(t *Term) string {
	if m.mg != nil && len(m.mg.local) > 0 {
		t = m.tt.and(append(append([]*Term{}, m.mg.local...), t)...)
	}
	if t.isConst {
		if !t.b {
			return "unsat"
		}
		return m.solver.check()
	}
	if m.ex.expired() {
		panic(pathEnd{"budget", "time budget"})
	}
	if t.op == "not" || t.op == "var" && t.sort == SBool {
		// check-sat-assuming takes literals over declared symbols
	}
	l := m.litOf(t)
	r := m.solver.check(l)
	if r == "dead" {
		panic(pathEnd{"dead", "solver died"})
	}
	if r == "unknown" {
		m.uncertain = true
	}
	return r
}

func (m *Machine) record(d decision) { m.trace = append(m.trace, d) }

func (m *Machine) fork(d decision) {
	alt := make([]decision, len(m.trace)+1)
	copy(alt, m.trace)
	alt[len(m.trace)] = d
	m.ex.push(alt)
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.isConst {
		return c.b
	}
	if m.inInit > 0 {
		panic(m.unsupported("symbolic branch in package init"))
	}
	if m.mg != nil {
		return m.mergeBranch(c)
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.record(d)
		switch d.k {
		case 'T':
			m.assert(c)
			return true
		case 'F':
			m.assert(m.tt.not(c))
			return false
		case 't':
			return true
		case 'f':
			return false
		}
		panic(pathEnd{"incomplete", fmt.Sprintf("replay divergence (branch vs %c)", d.k)})
	}
	if m.sat(c) == "unsat" {
		m.record(decision{k: 'f'})
		return false
	}
	if m.sat(m.tt.not(c)) == "unsat" {
		m.record(decision{k: 't'})
		return true
	}
	m.fork(decision{k: 'F'})
	m.record(decision{k: 'T'})
	m.assert(c)
	return true
}

// choose forks over 0..n-1 without consulting the solver.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.mg != nil {
		panic(mergeAbort{"choice"})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.record(d)
		if d.k != 'C' {
			panic(pathEnd{"incomplete", "replay divergence (choice)"})
		}
		return d.n
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(decision{k: 'C', n: i})
	}
	m.record(decision{k: 'C', n: 0})
	return 0
}

// concretize enumerates the feasible values of t (forking).
func (m *Machine) concretize(t *Term) *big.Rat {
	if t.isConst {
		if t.sort == SInt {
			return new(big.Rat).SetInt(t.i)
		}
		return t.r
	}
	if m.mg != nil {
		panic(mergeAbort{"enumeration"})
	}
	mkc := func(v *big.Rat) *Term {
		if t.sort == SInt {
			return m.tt.intC(v.Num())
		}
		return m.tt.ratC(v)
	}
	for n := 0; ; n++ {
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			m.record(d)
			switch d.k {
			case 'E':
				m.assert(m.tt.eq(t, mkc(d.v)))
				return d.v
			case 'e':
				return d.v
			case 'N':
				m.assert(m.tt.not(m.tt.eq(t, mkc(d.v))))
				continue
			}
			panic(pathEnd{"incomplete", "replay divergence (concretize)"})
		}
		if n >= m.concLimit {
			panic(m.unsupported("more than %d values to enumerate", m.concLimit))
		}
		if r := m.solver.check(); r != "sat" {
			if r == "unsat" {
				panic(pathEnd{"assume", "infeasible"})
			}
			panic(m.unsupported("no model while enumerating"))
		}
		l := m.litOf(t)
		rats, _, err := m.solver.values([]string{l})
		if err != nil || rats[l] == nil {
			panic(m.unsupported("no value while enumerating"))
		}
		v := rats[l]
		if m.sat(m.tt.not(m.tt.eq(t, mkc(v)))) == "unsat" {
			m.record(decision{k: 'e', v: v})
			return v
		}
		m.fork(decision{k: 'N', v: v})
		m.record(decision{k: 'E', v: v})
		m.assert(m.tt.eq(t, mkc(v)))
		return v
	}
}

func (m *Machine) concInt(v value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case uint64:
		return int64(v)
	case *Term:
		return m.concretize(v).Num().Int64()
	}
	panic(fmt.Sprintf("concInt %T", v))
}

// ---------------------------------------------------------------- property checks

func (m *Machine) check(label string, cond value, detail string) {
	if m.mg != nil {
		panic(mergeAbort{"check"})
	}
	ex := m.ex
	switch c := cond.(type) {
	case bool:
		ex.countCheck(label, "decided_by_path_condition")
		if c {
			return
		}
		r := m.solver.check()
		if r == "unsat" {
			return
		}
		m.report(label, detail, r)
		return
	case *Term:
		// the statement is decided once per path
		r := m.sat(m.tt.not(c))
		switch r {
		case "unsat":
			ex.countCheck(label, "discharged")
		case "sat":
			ex.countCheck(label, "refuted")
			m.solver.send("(push)")
			mark := len(m.tt.emittedLog)
			m.assertNoPop(m.tt.not(c))
			m.report(label, detail, r)
			m.solver.send("(pop)")
			for _, t := range m.tt.emittedLog[mark:] {
				t.emitted = false
			}
			m.tt.emittedLog = m.tt.emittedLog[:mark]
			// terms defined inside the scope are gone: end this path, the
			// other side is explored separately
			if m.branchAfterCheck(c) {
				return
			}
		default:
			ex.countCheck(label, "undecided")
		}
		return
	}
}

func (m *Machine) assertNoPop(t *Term) {
	// t's definitions were already emitted by sat()
	m.solver.send("(assert " + m.litOf(t) + ")")
}

// after a refuted check the path continues under the assumption that the
// condition holds
func (m *Machine) branchAfterCheck(c *Term) bool {
	if m.sat(c) == "unsat" {
		panic(pathEnd{"done", "no state satisfies the condition"})
	}
	m.assert(c)
	return true
}

func (m *Machine) report(label, detail, verdict string) {
	key := m.ex.harness + "/" + label
	if !m.ex.wantCandidate(key) {
		return
	}
	sc := m.buildScript(label, detail)
	if sc == nil {
		return
	}
	m.ex.addCandidate(&candidate{label: label, detail: detail, script: sc, harness: m.ex.harness})
}

// buildScript reads a model for all logged inputs (solver must be in a sat state).
func (m *Machine) buildScript(label, detail string) *Script {
	get := func(t *Term) *big.Rat {
		l := m.litOf(t)
		rats, _, err := m.solver.values([]string{l})
		if err != nil {
			return nil
		}
		return rats[l]
	}
	// make sure every term is defined before asking for values
	pre := func(v value) {
		if t, ok := v.(*Term); ok {
			m.litOf(t)
		}
	}
	for _, in := range m.inputs {
		pre(in.v)
		if ss, ok := in.v.(*SymStr); ok {
			for _, g := range ss.segs {
				if g.t != nil {
					m.litOf(g.t)
				}
			}
		}
	}
	for _, d := range m.draws {
		pre(d.v)
		pre(d.n)
		if d.prod != nil {
			m.litOf(d.prod)
			m.litOf(d.rng)
		}
	}
	if r := m.solver.check(); r != "sat" {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "no model for candidate", label, r)
		}
		return nil
	}
	if d := os.Getenv("GOSYM_SMT"); d != "" && label != "" && m.solver.log != nil {
		os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, label, m.solver.queries), []byte(m.solver.log.String()), 0o644)
	}
	sc := &Script{Harness: m.ex.harness, Tier: m.ex.tier, Label: label, Detail: detail}
	for _, in := range m.inputs {
		o := Input{Name: in.name, Kind: in.kind}
		switch v := in.v.(type) {
		case int64:
			o.I = v
		case bool:
			if v {
				o.I = 1
			}
		case float64:
			o.F = v
		case string:
			o.S = v
		case *Term:
			switch v.sort {
			case SBool:
				l := m.litOf(v)
				_, bs, err := m.solver.values([]string{l})
				if err == nil && bs[l] {
					o.I = 1
				}
			case SInt:
				r := get(v)
				if r == nil {
					return nil
				}
				o.I = r.Num().Int64()
			case SReal:
				r := get(v)
				if r == nil {
					return nil
				}
				o.F, _ = r.Float64()
			}
		case *SymStr:
			var sb strings.Builder
			for _, g := range v.segs {
				switch g.k {
				case sLit:
					sb.WriteString(g.lit)
				case sByte:
					r := get(g.t)
					if r == nil {
						return nil
					}
					sb.WriteByte(byte(r.Num().Int64()))
				}
			}
			o.S = sb.String()
		}
		sc.Inputs = append(sc.Inputs, o)
	}
	for _, d := range m.draws {
		o := Draw{Src: d.src, Kind: d.kind}
		num := func(v value) int64 {
			switch v := v.(type) {
			case int64:
				return v
			case *Term:
				if r := get(v); r != nil {
					return r.Num().Int64()
				}
			}
			return 0
		}
		switch d.kind {
		case "intn":
			o.N, o.V = num(d.n), num(d.v)
		case "f64":
			if t, ok := d.v.(*Term); ok {
				if r := get(t); r != nil {
					o.F, _ = r.Float64()
				}
				if d.prod != nil {
					p, q := get(d.prod), get(d.rng)
					if p != nil && q != nil && q.Sign() != 0 {
						u := new(big.Rat).Quo(p, q)
						o.F, _ = u.Float64()
					}
				}
			} else if f, ok := d.v.(float64); ok {
				o.F = f
			}
		}
		sc.Draws = append(sc.Draws, o)
	}
	sc.Notes = append(sc.Notes, m.notes...)
	return sc
}

// ---------------------------------------------------------------- explorer

type Explorer struct {
	P         *Program
	harness   string
	tier      string
	prop      string
	mu        sync.Mutex
	pool      *Pool
	queue     [][]decision
	active    int
	spent     time.Duration
	fifo      bool
	deadline  time.Time
	timedOut  bool
	maxPaths  int64
	paths     map[string]int64
	incompl   map[string]int64
	checks    map[string]map[string]int64
	reached   map[string]int64
	cands     []*candidate
	candCount map[string]int
	candMax   int
	fns       map[string]bool
	bounds    map[string]string
	solverBin string
	timeoutMs int
	workers   int
	// solver totals
	queries, nsat, nunsat, nunknown int64
	solverTime                      time.Duration
	steps                           int64
	initPartial                     map[string]string
	samples                         []string
	leftover                        int
	panicOK                         bool
	expected                        map[string]*expectation
	decisions                       int64
	traces                          []*trace
	maxTraces                       int
}

func newExplorer(P *Program, prop, harness, tier string, deadline time.Time) *Explorer {
	ex := &Explorer{P: P, prop: prop, harness: harness, tier: tier,
		deadline: deadline, paths: map[string]int64{}, incompl: map[string]int64{},
		checks: map[string]map[string]int64{}, reached: map[string]int64{}, expected: map[string]*expectation{}, candCount: map[string]int{},
		candMax: 12, fns: map[string]bool{}, bounds: map[string]string{}, solverBin: "z3", timeoutMs: 4000,
		initPartial: map[string]string{}, maxPaths: 1 << 40}
	return ex
}

func (ex *Explorer) expired() bool { return time.Now().After(ex.deadline) }

func (ex *Explorer) push(d []decision) { ex.pool.push(ex, d) }

func (ex *Explorer) countCheck(label, k string) {
	ex.mu.Lock()
	if ex.checks[label] == nil {
		ex.checks[label] = map[string]int64{}
	}
	ex.checks[label][k]++
	ex.mu.Unlock()
}

func (ex *Explorer) wantCandidate(key string) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.candCount[key]++
	return ex.candCount[key] <= ex.candMax
}

func (ex *Explorer) addCandidate(c *candidate) {
	ex.mu.Lock()
	c.order = len(ex.cands)
	ex.cands = append(ex.cands, c)
	ex.mu.Unlock()
}

func (m *Machine) runPath(entry *ssa.Function, prefix []decision) {
	m.tt = newTermTable()
	m.prefix, m.pos, m.trace = prefix, 0, nil
	m.mg = nil
	m.nvar, m.nOpaque, m.anchors, m.inAnchors = 0, 0, nil, nil
	m.inputs, m.draws, m.nsrc, m.notes = nil, nil, 0, nil
	m.fixed = nil
	m.srcBySd = map[string]*randObj{}
	m.seeds, m.seedKeys = nil, nil
	m.strEqCache = map[string]*Term{}
	m.uncertain = false
	m.depth, m.pathSteps = 0, 0
	m.stack = m.stack[:0]
	m.hstate = map[string]any{}
	m.rngFork = false
	m.schemaSeq = 0
	m.extern = nil
	m.nscripted = 0
	m.unscripted, m.relaxed = false, false
	m.observed = nil
	if os.Getenv("GOSYM_SMT") != "" {
		m.solver.log = &strings.Builder{}
	}
	m.solver.send("(push)")
	kind, msg := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					kind, msg = r.kind, r.msg
				case targetPanic:
					kind, msg = "panic", m.panicText(r)
				default:
					if os.Getenv("GOSYM_CRASH") != "" {
						panic(r)
					}
					where := ""
					for i := len(m.stack) - 1; i >= 0 && i > len(m.stack)-5; i-- {
						where += " < " + m.stack[i].String()
					}
					kind, msg = "incomplete", fmt.Sprintf("engine: %v%s", r, where)
				}
			}
		}()
		m.callFunction(nil, entry, nil, nil)
	}()
	func() {
		defer func() { recover() }()
		if kind == "panic" || kind == "depth" || kind == "steps" {
			// an escaping panic is a violation candidate
			where := msg
			lbl := "no-panic"
			if kind != "panic" {
				lbl = "terminates"
			}
			m.report(lbl, where, "sat")
		}
	}()
	var tr *trace
	if kind == "done" && m.ex.wantTrace() {
		func() {
			defer func() { recover() }()
			tr = m.buildTrace()
		}()
	}
	if kind == "dead" || m.solver.cmd.ProcessState != nil {
		m.solver.start()
	} else {
		m.solver.send("(pop)")
	}
	if kind == "dead" {
		kind, msg = "incomplete", "solver gave no answer"
	}
	m.rollback()
	ex := m.ex
	ex.mu.Lock()
	ex.paths[kind]++
	if n := int64(len(m.trace) - len(prefix)); n > 0 {
		ex.decisions += n
	}
	if kind == "incomplete" || kind == "steps" {
		ex.incompl[msg]++
	}
	if kind == "budget" {
		ex.timedOut = true
	}
	if kind == "done" && m.uncertain {
		ex.paths["uncertain"]++
	}
	if kind == "done" && len(ex.samples) < 5 {
		ex.samples = append(ex.samples, m.describePath())
	}
	if tr != nil {
		ex.traces = append(ex.traces, tr)
	}
	ex.mu.Unlock()
	if os.Getenv("GOSYM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "path %s %s dec=%d steps=%d\n", kind, msg, len(m.trace), m.pathSteps)
	}
}

func (m *Machine) describePath() string {
	var sb strings.Builder
	for i, in := range m.inputs {
		if i > 12 {
			break
		}
		switch v := in.v.(type) {
		case *Term:
			fmt.Fprintf(&sb, "%s:sym ", in.name)
		case *SymStr:
			fmt.Fprintf(&sb, "%s:symstr ", in.name)
		default:
			fmt.Fprintf(&sb, "%s=%v ", in.name, v)
		}
	}
	fmt.Fprintf(&sb, "| %d decisions, %d rng draws", len(m.trace), len(m.draws))
	return sb.String()
}

func (P *Program) findHarness(name string) *ssa.Function {
	for _, p := range P.pkgs {
		if f := p.Func(name); f != nil && len(f.Blocks) > 0 && strings.HasPrefix(name, "H_") {
			return f
		}
	}
	return nil
}
