package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	flagRepo    = flag.String("repo", "/repo", "module under analysis")
	flagVerif   = flag.String("verif", "/verif", "verification directory")
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagHarness = flag.String("harness", "", "only harnesses matching this expression")
	flagBudget  = flag.Int("budget", 0, "seconds for the exploration")
	flagWorkers = flag.Int("workers", 0, "parallel workers")
	flagSolver  = flag.String("solver", "z3", "SMT solver")
	flagNoRep   = flag.Bool("noreplay", false, "list candidates without replaying")
	flagV       = flag.Bool("v", false, "verbose")
)

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
	Text     string `json:"text"`
}

func loadKnown(path string) map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var l struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &l) != nil {
		return out
	}
	for _, k := range l.Findings {
		if k.Status == "known" {
			out[k.ID] = k
		}
	}
	return out
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func (P *Program) harnesses(prop string) []string {
	var out []string
	for _, p := range P.pkgs {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for name, mem := range p.Members {
			if strings.HasPrefix(name, "H_"+prop+"_") {
				_ = mem
				out = append(out, name)
			}
		}
	}
	sort.Strings(out)
	return out
}

type outcome struct {
	c      *candidate
	res    string // reproduced | not reproduced | error
	output string
}

func main() {
	flag.Parse()
	t0 := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *flagProp == "" {
		fatal("-prop is required")
	}
	tier := *flagTier
	budget := time.Duration(*flagBudget) * time.Second
	if budget == 0 {
		budget = 100 * time.Second
		if tier == "thorough" {
			budget = 600 * time.Second
		}
	}
	P, _, err := loadProgram(*flagRepo, filepath.Join(*flagVerif, "harness"), true)
	if err != nil {
		fmt.Fprintln(os.Stderr, "with accessors:", err)
		P, _, err = loadProgram(*flagRepo, filepath.Join(*flagVerif, "harness"), false)
		if err != nil {
			fatal("cannot load the code under analysis: %v", err)
		}
	}
	names := P.harnesses(*flagProp)
	if *flagHarness != "" {
		re := regexp.MustCompile(*flagHarness)
		var sel []string
		for _, n := range names {
			if re.MatchString(n) {
				sel = append(sel, n)
			}
		}
		names = sel
	}
	if len(names) == 0 {
		fatal("no harness for %s", *flagProp)
	}
	loadT := time.Since(t0)
	deadline := time.Now().Add(budget)
	var exs []*Explorer
	for _, n := range names {
		ex := newExplorer(P, *flagProp, n, tier, deadline)
		ex.maxTraces = 4
		if tier == "thorough" {
			ex.maxTraces = 16
		}
		exs = append(exs, ex)
	}
	workers := *flagWorkers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	tmo := 4000
	if tier == "thorough" {
		tmo = 15000
	}
	pool, perr := runPool(P, exs, workers, deadline, *flagSolver, tmo)
	if perr != nil {
		fmt.Fprintln(os.Stderr, "pool:", perr)
	}
	// unreached expectations become candidates, once everything was explored
	for _, ex := range exs {
		complete := !ex.timedOut && ex.leftover == 0 && len(ex.incompl) == 0 && ex.paths["dead"] == 0
		var ls []string
		for l := range ex.expected {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			e := ex.expected[l]
			if ex.reached[l] > 0 {
				ex.countCheck(l, "reached")
				continue
			}
			if !complete {
				ex.countCheck(l, "reachability undecided")
				continue
			}
			ex.countCheck(l, "unreachable")
			if e.script != nil {
				e.script.Label = l
				ex.cands = append(ex.cands, &candidate{label: l, detail: "no execution reaches it", script: e.script, harness: ex.harness, cover: true})
			}
		}
	}
	known := loadKnown(filepath.Join(*flagVerif, "known_findings.json"))
	var cands []*candidate
	var traces []*trace
	for _, ex := range exs {
		cands = append(cands, ex.cands...)
		traces = append(traces, ex.traces...)
	}
	if *flagV {
		for _, ex := range exs {
			ex.dump()
		}
	}
	var outs []outcome
	validated, mismatched := 0, []string{}
	replayErr := ""
	if (len(cands) > 0 || len(traces) > 0) && !*flagNoRep {
		bin, dir, err := buildReplay(*flagRepo, *flagVerif, P)
		if err != nil {
			replayErr = err.Error()
			fmt.Fprintln(os.Stderr, "replay build failed:", err)
		} else {
			outs = replayAll(bin, dir, *flagVerif, *flagProp, cands)
			validated, mismatched = validateTraces(bin, dir, traces)
			os.RemoveAll(dir)
		}
	}
	violations := 0
	seenLabel := map[string]bool{}
	knownHit := map[string]string{}
	notRepro := map[string]int{}
	for _, o := range outs {
		l := o.c.harness + "/" + o.c.label
		if o.res != "reproduced" {
			notRepro[l]++
			continue
		}
		if strings.HasPrefix(o.c.label, "known:") {
			id := strings.SplitN(o.c.label, ":", 3)[1]
			if k, ok := known[id]; ok && k.Property == *flagProp {
				knownHit[id] = k.Text
				continue
			}
		}
		if seenLabel[l] {
			continue
		}
		seenLabel[l] = true
		violations++
		path := saveReplay(*flagVerif, *flagProp, o)
		fmt.Printf("violated: %s: %s (%s)\n%s", l, o.c.label, o.c.detail, indent(o.output))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, path)
	}
	var ids []string
	for id := range knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *flagProp, id, knownHit[id])
	}
	for l, k := range notRepro {
		if !seenLabel[l] && *flagV {
			fmt.Fprintf(os.Stderr, "not reproduced on the real code: %s (%d candidates)\n", l, k)
		}
	}
	writeEvidence(exs, pool, violations, validated, mismatched, notRepro, ids, replayErr, time.Since(t0), loadT)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries, %d violations, %.1fs\n", *flagProp, tier, len(exs), totalPaths(exs), pool.queries, violations, time.Since(t0).Seconds())
	if violations > 0 {
		os.Exit(1)
	}
}

func indent(s string) string {
	s = strings.TrimRight(s, "\n")
	if s == "" {
		return ""
	}
	return "    " + strings.ReplaceAll(s, "\n", "\n    ") + "\n"
}

func totalPaths(exs []*Explorer) (n int64) {
	for _, ex := range exs {
		for k, v := range ex.paths {
			if k != "uncertain" {
				n += v
			}
		}
	}
	return
}

func (ex *Explorer) dump() {
	fmt.Fprintf(os.Stderr, "== %s paths=%v checks=%v cands=%d timedOut=%v left=%d queries=%d solver=%.1fs spent=%.1fs\n",
		ex.harness, ex.paths, ex.checks, len(ex.cands), ex.timedOut, ex.leftover, ex.queries, ex.solverTime.Seconds(), ex.spent.Seconds())
	for k, v := range ex.incompl {
		fmt.Fprintf(os.Stderr, "   incomplete %d: %s\n", v, k)
	}
	for k, v := range ex.initPartial {
		fmt.Fprintf(os.Stderr, "   init %s: %s\n", k, v)
	}
	n := 0
	for _, c := range ex.cands {
		b, _ := json.Marshal(c.script)
		fmt.Fprintf(os.Stderr, "   cand %s | %s | %s\n", c.label, c.detail, b)
		if n++; n > 6 {
			break
		}
	}
}

// ---------------------------------------------------------------- replay

func buildReplay(repo, verif string, P *Program) (string, string, error) {
	dir, err := os.MkdirTemp("", "gosym-replay")
	if err != nil {
		return "", "", err
	}
	ov := map[string]string{}
	files, err := overlayFiles(repo, filepath.Join(verif, "harness"), P.withHooks)
	if err != nil {
		return "", dir, err
	}
	for k, v := range files {
		ov[k] = v
	}
	for k, v := range writeCliCopy(repo, dir) {
		ov[k] = v
	}
	ov[filepath.Join(repo, "zzverif/zzmain/main.go")] = filepath.Join(verif, "harness/zzmain/main.go")
	var sb strings.Builder
	sb.WriteString("package zzverif\n\nfunc init() {\n")
	p := P.pkgs[harnessPkg]
	var hs []string
	for n := range p.Members {
		if strings.HasPrefix(n, "H_") {
			hs = append(hs, n)
		}
	}
	sort.Strings(hs)
	for _, n := range hs {
		fmt.Fprintf(&sb, "\tHarnesses[%q] = %s\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(dir, "registry.go")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	ov[filepath.Join(repo, "zzverif/zz_registry.go")] = reg
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command(goRoot()+"/bin/go", "build", "-overlay", ovf, "-o", bin, "./zzverif/zzmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", dir, fmt.Errorf("%v: %s", err, out)
	}
	return bin, dir, nil
}

func runReplay(bin, dir, mode string, sc *Script, secs int, tag string) (string, string) {
	b, _ := json.MarshalIndent(sc, "", " ")
	f := filepath.Join(dir, "s"+tag+".json")
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(bin, mode, f, fmt.Sprint(secs))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GODEBUG=randseednop=1", "GOMEMLIMIT=2GiB", "GOGC=100")
	var sb strings.Builder
	cmd.Stdout = &limited{&sb}
	cmd.Stderr = &limited{&sb}
	if err := cmd.Start(); err != nil {
		return "error", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Duration(secs+12) * time.Second):
		cmd.Process.Kill()
		<-done
		return "timeout", sb.String()
	}
	return "end", sb.String()
}

type limited struct{ sb *strings.Builder }

func (l *limited) Write(b []byte) (int, error) {
	if l.sb.Len() < 4000 {
		l.sb.Write(b)
	}
	return len(b), nil
}

func replayAll(bin, dir, verif, prop string, cands []*candidate) []outcome {
	outs := make([]outcome, len(cands))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	var mu sync.Mutex
	got := map[string]int{}
	start := time.Now()
	for i, c := range cands {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			key := c.harness + "/" + c.label
			mu.Lock()
			skip := got[key] > 0 || time.Since(start) > 120*time.Second
			mu.Unlock()
			if skip {
				outs[i] = outcome{c, "skipped", ""}
				return
			}
			mode, secs := "replay", 6
			if c.cover {
				mode, secs = "cover", 8
			}
			st, out := runReplay(bin, dir, mode, c.script, secs, fmt.Sprint(i))
			res := "not reproduced"
			switch {
			case strings.Contains(out, "REPRODUCED"):
				res = "reproduced"
			case c.cover && strings.Contains(out, "NEVER"):
				res = "reproduced"
			case c.label == "terminates" && (st == "timeout" || strings.Contains(out, "stack overflow") || strings.Contains(out, "goroutine stack exceeds")):
				res = "reproduced"
			case c.label == "no-panic" && strings.Contains(out, "fatal error"):
				res = "reproduced"
			}
			if *flagV {
				fmt.Fprintf(os.Stderr, "replay %s: %s [%s]\n%s", key, res, st, indent(out))
			}
			if res == "reproduced" {
				mu.Lock()
				got[key]++
				mu.Unlock()
			}
			outs[i] = outcome{c, res, out}
		}()
	}
	wg.Wait()
	return outs
}

func validateTraces(bin, dir string, traces []*trace) (int, []string) {
	ok := 0
	var bad []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, tr := range traces {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			_, out := runReplay(bin, dir, "trace", tr.script, 5, fmt.Sprintf("t%d", i))
			good := strings.Contains(out, "END done")
			var obs []string
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "OBS ") {
					obs = append(obs, l[4:])
				}
			}
			if good && tr.obs != nil && strings.Join(obs, "\n") != strings.Join(tr.obs, "\n") {
				good = false
				out = "expected " + strings.Join(tr.obs, " ; ") + "\ngot " + strings.Join(obs, " ; ") + "\n" + out
			}
			mu.Lock()
			defer mu.Unlock()
			if good {
				ok++
				return
			}
			if *flagV {
				b, _ := json.Marshal(tr.script)
				fmt.Fprintf(os.Stderr, "trace mismatch %s\n%s%s\n", tr.script.Harness, indent(out), b)
			}
			bad = append(bad, tr.script.Harness)
		}()
	}
	wg.Wait()
	return ok, bad
}

func saveReplay(verif, prop string, o outcome) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+"_"+clean(o.c.harness+"_"+o.c.label)+".json")
	if len(path) > 200 {
		path = path[:195] + ".json"
	}
	o.c.script.Notes = append(o.c.script.Notes, o.output)
	b, _ := json.MarshalIndent(o.c.script, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}
