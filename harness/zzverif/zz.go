// Package zzverif holds the verification harnesses.  It is compiled into the
// module through an overlay: the symbolic engine interprets it together with
// the real code, and the same functions run natively when a counterexample is
// replayed.  The functions in this file are the intrinsics; their bodies here
// are the native (replay) behaviour.
package zzverif

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ryanolee/go-chaff/rand"
	"github.com/ryanolee/go-chaff/zzverif/climain"
)

type scriptInput struct {
	Name string  `json:"name"`
	Kind string  `json:"kind"`
	I    int64   `json:"i"`
	F    float64 `json:"f"`
	S    string  `json:"s"`
}
type scriptDraw struct {
	Src  int     `json:"src"`
	Kind string  `json:"kind"`
	N    int64   `json:"n"`
	V    int64   `json:"v"`
	F    float64 `json:"f"`
}
type script struct {
	Harness string        `json:"harness"`
	Tier    string        `json:"tier"`
	Label   string        `json:"label"`
	Inputs  []scriptInput `json:"inputs"`
	Draws   []scriptDraw  `json:"draws"`
}

// Harnesses is filled by a generated file.
var Harnesses = map[string]func(){}

type endOfRun struct{ why string }
type failure struct{ label, detail string }

var run struct {
	s        *script
	pos      int
	nsrc     int
	ndraws   int
	scripted bool
	fails    []failure
	covered  map[string]bool
	observed []string
	scratch  string
	notify   int
	watched  map[int32]string
	accesses []string
	serve    map[string]served
	stdout   *strings.Builder
	seed     int64
	oldCwd   string
	oldIn    *os.File
	oldOut   *os.File
}

type served struct {
	status   int
	redirect string
	body     string
}

func next(name string) *scriptInput {
	if run.s == nil || run.pos >= len(run.s.Inputs) {
		return nil
	}
	in := &run.s.Inputs[run.pos]
	if in.Name != name {
		panic(endOfRun{"diverged: " + name + " vs " + in.Name})
	}
	run.pos++
	return in
}

// ---- inputs

// Int is an arbitrary integer of [lo,hi].
func Int(name string, lo, hi int) int {
	if in := next(name); in != nil {
		return int(in.I)
	}
	panic(endOfRun{"no input " + name})
}

// Bool is an arbitrary truth value (explored on separate paths).
func Bool(name string) bool {
	if in := next(name); in != nil {
		return in.I != 0
	}
	panic(endOfRun{"no input " + name})
}

// SymBool is an arbitrary truth value kept symbolic.
func SymBool(name string) bool { return Bool(name) }

// Choice is an arbitrary integer of [0,n), explored on separate paths.
func Choice(name string, n int) int { return Int(name, 0, n-1) }

// Float is an arbitrary multiple of 2^-grid of [lo,hi].
func Float(name string, lo, hi float64, grid int) float64 {
	if in := next(name); in != nil {
		return in.F
	}
	panic(endOfRun{"no input " + name})
}

// Text is an arbitrary string of at most max bytes drawn from alphabet.
func Text(name string, max int, alphabet string) string {
	if in := next(name); in != nil {
		return in.S
	}
	panic(endOfRun{"no input " + name})
}

// TextN is an arbitrary string of exactly n bytes drawn from alphabet.
func TextN(name string, n int, alphabet string) string { return Text(name, n, alphabet) }

// ---- verdicts

func Assume(ok bool) {
	if !ok {
		panic(endOfRun{"assume"})
	}
}

// Check states the property: ok must hold on every path.
func Check(label string, ok bool, detail string) {
	if !ok {
		run.fails = append(run.fails, failure{label, detail})
	}
}

// CheckK is Check for a statement with a recorded exception: when known holds
// the violation is filed under the known finding id.
func CheckK(label string, ok bool, detail string, id string, known bool) {
	if known {
		Check("known:"+id+":"+label, ok, detail)
		return
	}
	Check(label, ok, detail)
}

// Expect announces a situation that some path must reach; Cover marks it.
func Expect(label string) {}
func Cover(label string, ok bool) {
	if ok {
		if run.covered == nil {
			run.covered = map[string]bool{}
		}
		run.covered[label] = true
	}
}
func Observe(name string, v any) { run.observed = append(run.observed, name+"="+canon(v)) }
func Bound(name, text string)    {}
func Note(text string)           {}
func Thorough() bool             { return run.s != nil && run.s.Tier == "thorough" }

// Symbolic tells the engine from a native replay.
func Symbolic() bool      { return false }
func ReverseMaps(on bool) {}

// IsMultiple tells whether v is a multiple of d, both taken as the decimal
// numbers they are written as.
func IsMultiple(v, d float64) bool {
	a, ok1 := new(big.Rat).SetString(strconv.FormatFloat(v, 'g', -1, 64))
	b, ok2 := new(big.Rat).SetString(strconv.FormatFloat(d, 'g', -1, 64))
	if !ok1 || !ok2 || b.Sign() == 0 {
		return false
	}
	return new(big.Rat).Quo(a, b).IsInt()
}

// ---- randomness

type scriptSource struct {
	draws []scriptDraw
	pos   int
	rest  mrand.Source
}

func (s *scriptSource) Seed(int64) {}
func (s *scriptSource) Int63() int64 {
	run.ndraws++
	if s.pos >= len(s.draws) {
		return s.rest.Int63()
	}
	d := s.draws[s.pos]
	s.pos++
	switch d.Kind {
	case "f64":
		k := int64(d.F * (1 << 53))
		if k < 0 {
			k = 0
		}
		if k >= 1<<53 {
			k = 1<<53 - 1
		}
		return k
	case "intn":
		if d.N <= 1<<31-1 {
			return d.V << 32
		}
		return d.V
	}
	return d.V
}

func newSource() mrand.Source {
	run.nsrc++
	run.seed++
	src := &scriptSource{rest: mrand.NewSource(run.seed)}
	if run.scripted && run.s != nil {
		for _, d := range run.s.Draws {
			if d.Src == run.nsrc {
				src.draws = append(src.draws, d)
			}
		}
	}
	return src
}

// Rand is a random source whose draws are arbitrary.
func Rand() *rand.RandUtil {
	src := newSource()
	return &rand.RandUtil{Source: src, Rand: mrand.New(src)}
}

// Draws is the number of draws made from the sources of Rand so far.
func Draws() int { return run.ndraws }

// ---- helpers

// Catch runs f and returns the text of the panic it raised, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case endOfRun:
				panic(r)
			case error:
				msg = "panic: " + r.Error()
			default:
				msg = "panic: " + fmt.Sprint(r)
			}
		}
	}()
	f()
	return ""
}

// JSON encodes a schema document.
func JSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func canon(v any) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case int:
		return strconv.Itoa(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		return strconv.Quote(v)
	case error:
		return "error"
	case []any:
		var p []string
		for _, x := range v {
			p = append(p, canon(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for k, x := range v {
			p = append(p, strconv.Quote(k)+":"+canon(x))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}"
	}
	return fmt.Sprintf("%T", v)
}

// ---- the outside world (a scratch directory and a recording transport)

const symRoot = "/zzroot"

func root() string {
	if run.scratch == "" {
		d, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		d, _ = filepath.EvalSymlinks(d)
		run.scratch = d
		run.oldCwd, _ = os.Getwd()
		os.MkdirAll(d+symRoot, 0o755)
		os.Chdir(d + symRoot)
	}
	return run.scratch
}

// The virtual file system: all paths handed to FSFile, FSLink and FSCwd are
// those of the virtual one, which a replay keeps below a scratch directory.

// FSPath maps a path of the virtual file system to the one to hand out.
func FSPath(p string) string {
	if Symbolic() {
		return p
	}
	return root() + p
}

func FSFile(path, content string) {
	real := root() + path
	os.MkdirAll(filepath.Dir(real), 0o755)
	if err := os.WriteFile(real, []byte(content), 0o644); err != nil {
		panic(err)
	}
	watch(path, real)
}

func FSLink(from, to string) {
	real := root() + from
	os.MkdirAll(filepath.Dir(real), 0o755)
	os.Remove(real)
	if filepath.IsAbs(to) {
		to = root() + to
	}
	if err := os.Symlink(to, real); err != nil {
		panic(err)
	}
}

func FSCwd(path string) {
	os.MkdirAll(root()+path, 0o755)
	os.Chdir(root() + path)
	os.Setenv("PWD", root()+path)
}

// watch notes every time the file is opened.
func watch(path, real string) {
	if run.notify == 0 {
		fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
		if err != nil {
			return
		}
		run.notify, run.watched = fd, map[int32]string{}
	}
	if wd, err := syscall.InotifyAddWatch(run.notify, real, syscall.IN_OPEN); err == nil {
		run.watched[int32(wd)] = path
	}
}

func drain() {
	if run.notify == 0 {
		return
	}
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(run.notify, buf)
		if n <= 0 || err != nil {
			return
		}
		for p := 0; p+16 <= n; {
			wd := int32(binary.LittleEndian.Uint32(buf[p:]))
			if f, ok := run.watched[wd]; ok {
				run.accesses = append(run.accesses, "read "+f)
			}
			p += 16 + int(binary.LittleEndian.Uint32(buf[p+12:]))
		}
	}
}

type recorder struct{}

func (recorder) RoundTrip(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	if r.URL.Scheme != "http" && r.URL.Scheme != "https" || r.URL.Host == "" {
		return nil, fmt.Errorf("unsupported protocol scheme")
	}
	run.accesses = append(run.accesses, "http "+u)
	sv, ok := run.serve[u]
	if !ok {
		return nil, fmt.Errorf("connection refused")
	}
	resp := &http.Response{StatusCode: sv.status, Status: strconv.Itoa(sv.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(strings.NewReader(sv.body)), Request: r, ContentLength: int64(len(sv.body))}
	if sv.redirect != "" {
		resp.StatusCode = 302
		resp.Header.Set("Location", sv.redirect)
	}
	return resp, nil
}

// HTTPServe makes url answer with a status and body, or redirect elsewhere.
func HTTPServe(url string, status int, redirect, body string) {
	if run.serve == nil {
		run.serve = map[string]served{}
	}
	run.serve[url] = served{status, redirect, body}
}

// Accesses lists the files of the virtual file system opened and the URLs
// requested so far ("read /path", "http https://host/path").
func Accesses() []string { drain(); return run.accesses }

// SetStdin makes text the standard input, through a pipe or not at all.
func SetStdin(text string, piped bool) {
	root()
	if run.oldIn == nil {
		run.oldIn = os.Stdin
	}
	if !piped {
		os.Stdin, _ = os.Open("/dev/null")
		return
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go func() { w.WriteString(text); w.Close() }()
	os.Stdin = r
}

// CLI runs the command line tool and returns what it wrote and its exit code.
// The tool is a copy of its current source (see clicopy.go).
func CLI(args []string) (out string, code int, ok bool) {
	captureOut()
	defer func() { out = Stdout() }()
	code, ok = climain.Main(args)
	return
}

// captureOut collects what is written to the standard output from here on.
func captureOut() {
	root()
	if run.oldOut == nil {
		run.oldOut = os.Stdout
	}
	f, err := os.CreateTemp(run.scratch, "out")
	if err != nil {
		panic(err)
	}
	os.Stdout = f
}

// Stdout is what has been written since captureOut.
func Stdout() string {
	f := os.Stdout
	os.Stdout = run.oldOut
	b, _ := os.ReadFile(f.Name())
	f.Close()
	return string(b)
}

// FSRead is the content of a file of the virtual file system.
func FSRead(path string) (string, bool) {
	b, err := os.ReadFile(root() + path)
	drain()
	return string(b), err == nil
}

// ---- replay

func cleanup() {
	if run.oldIn != nil {
		os.Stdin.Close()
		os.Stdin, run.oldIn = run.oldIn, nil
	}
	if run.oldOut != nil {
		if os.Stdout != run.oldOut {
			os.Stdout.Close()
		}
		os.Stdout, run.oldOut = run.oldOut, nil
	}
	if run.scratch != "" {
		os.Chdir(run.oldCwd)
		os.Setenv("PWD", run.oldCwd)
		os.RemoveAll(run.scratch)
		run.scratch = ""
	}
	if run.notify != 0 {
		syscall.Close(run.notify)
		run.notify = 0
	}
}

func once(h func()) (why string) {
	run.pos, run.nsrc, run.fails, run.observed, run.accesses = 0, 0, nil, nil, nil
	run.ndraws = 0
	run.serve = nil
	defer cleanup()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(endOfRun); ok {
				why = e.why
				return
			}
			run.fails = append(run.fails, failure{"no-panic", fmt.Sprint(r)})
			why = "panic"
		}
	}()
	h()
	return "done"
}

// ReplayMain runs a script: zzverif replay FILE | trace FILE | cover FILE
func ReplayMain() {
	debug.SetMaxStack(256 << 20)
	http.DefaultTransport = recorder{}
	mode, file := os.Args[1], os.Args[2]
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	run.s = &script{}
	if err := json.Unmarshal(b, run.s); err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	h := Harnesses[run.s.Harness]
	if h == nil {
		fmt.Println("ERROR no harness", run.s.Harness)
		os.Exit(2)
	}
	budget := 8 * time.Second
	if len(os.Args) > 3 {
		if n, err := strconv.Atoi(os.Args[3]); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	stop := time.Now().Add(budget)
	switch mode {
	case "trace":
		run.scripted = true
		why := once(h)
		fmt.Println("END", why)
		for _, f := range run.fails {
			fmt.Println("FAIL", f.label, "::", f.detail)
		}
		for _, o := range run.observed {
			fmt.Println("OBS", o)
		}
	case "replay":
		for i := 0; i < 20000 && (i == 0 || time.Now().Before(stop)); i++ {
			run.scripted = i%2 == 0
			why := once(h)
			if i == 0 {
				fmt.Println("END", why)
			}
			for _, f := range run.fails {
				if f.label == run.s.Label {
					fmt.Println("REPRODUCED", i, f.label, "::", f.detail)
					os.Exit(1)
				}
				if i < 3 {
					fmt.Println("OTHER", f.label, "::", f.detail)
				}
			}
		}
	case "cover":
		n := 0
		for i := 0; i < 200000 && (i == 0 || time.Now().Before(stop)); i++ {
			run.scripted = false
			once(h)
			n++
			if run.covered[run.s.Label] {
				fmt.Println("COVERED", run.s.Label)
				return
			}
		}
		fmt.Println("NEVER", n)
		os.Exit(1)
	}
}
