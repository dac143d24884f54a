package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one z3 process in incremental mode.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	buf     strings.Builder
	log     *strings.Builder // full script of the current path
	timeout int              // ms
	queries int64
	unknown int64
	sat     int64
	unsat   int64
	slow    int64
	spent   time.Duration
	errs    int64
	lastErr string
}

func newSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :smt.arith.nl.nra true)\n", s.timeout)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		fmt.Fprintln(s.in, "(exit)")
		s.in.Flush()
		done := make(chan bool, 1)
		go func() { s.cmd.Wait(); done <- true }()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			s.cmd.Process.Kill()
		}
	}
}

func (s *Solver) send(line string) {
	s.in.WriteString(line)
	s.in.WriteByte('\n')
	if s.log != nil {
		s.log.WriteString(line)
		s.log.WriteByte('\n')
	}
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	type res struct {
		l string
		e error
	}
	l, e := s.out.ReadString('\n')
	return strings.TrimSpace(l), e
}

// check asserts nothing permanently; assumptions are literal names.
func (s *Solver) check(lits ...string) string {
	t0 := time.Now()
	s.queries++
	if len(lits) == 0 {
		s.send("(check-sat)")
	} else {
		s.send("(check-sat-assuming (" + strings.Join(lits, " ") + "))")
	}
	// watchdog: z3 can ignore its own timeout inside preprocessing
	killed := false
	proc := s.cmd.Process
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3+5*time.Second, func() { killed = true; proc.Kill() })
	defer timer.Stop()
	for {
		l, err := s.readLine()
		if err != nil {
			_ = killed
			s.spent += time.Since(t0)
			s.unknown++
			return "dead"
		}
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.errs++
			s.lastErr = l
			continue
		}
		s.spent += time.Since(t0)
		switch l {
		case "sat":
			s.sat++
		case "unsat":
			s.unsat++
		default:
			s.unknown++
		}
		return l
	}
}

// values reads model values of the given names.
func (s *Solver) values(names []string) (map[string]*big.Rat, map[string]bool, error) {
	rats := map[string]*big.Rat{}
	bools := map[string]bool{}
	if len(names) == 0 {
		return rats, bools, nil
	}
	for _, n := range names {
		s.send("(get-value (" + n + "))")
		txt := ""
		depth := 0
		for {
			l, err := s.readLine()
			if err != nil {
				return nil, nil, err
			}
			if strings.HasPrefix(l, "(error") {
				return nil, nil, fmt.Errorf("%s", l)
			}
			txt += " " + l
			depth = parenDepth(txt)
			if depth == 0 && strings.TrimSpace(txt) != "" {
				break
			}
		}
		x := parseSexp(txt)
		// ((name val))
		if len(x.kids) == 1 && len(x.kids[0].kids) == 2 {
			v := x.kids[0].kids[1]
			if v.atom == "true" || v.atom == "false" {
				bools[n] = v.atom == "true"
			} else if r := sexpRat(v); r != nil {
				rats[n] = r
			}
		}
	}
	return rats, bools, nil
}

type sexp struct {
	atom string
	kids []*sexp
}

func parenDepth(s string) int {
	d := 0
	inBar := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			inBar = !inBar
		case '(':
			if !inBar {
				d++
			}
		case ')':
			if !inBar {
				d--
			}
		}
	}
	return d
}

func parseSexp(s string) *sexp {
	pos := 0
	var rec func() *sexp
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
			pos++
		}
	}
	rec = func() *sexp {
		skip()
		if pos >= len(s) {
			return &sexp{}
		}
		if s[pos] == '(' {
			pos++
			n := &sexp{}
			for {
				skip()
				if pos >= len(s) {
					return n
				}
				if s[pos] == ')' {
					pos++
					return n
				}
				n.kids = append(n.kids, rec())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
		} else {
			for pos < len(s) && !strings.ContainsRune(" ()\n\t", rune(s[pos])) {
				pos++
			}
		}
		return &sexp{atom: s[st:pos]}
	}
	return rec()
}

func sexpRat(x *sexp) *big.Rat {
	if x.atom != "" {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x.atom, "?"))
		if !ok {
			return nil
		}
		return r
	}
	if len(x.kids) == 2 && x.kids[0].atom == "-" {
		r := sexpRat(x.kids[1])
		if r == nil {
			return nil
		}
		return new(big.Rat).Neg(r)
	}
	if len(x.kids) == 3 && x.kids[0].atom == "/" {
		a, b := sexpRat(x.kids[1]), sexpRat(x.kids[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(a, b)
	}
	return nil
}

var _ = io.EOF
