package main

import (
	"fmt"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Pool schedules the paths of several harnesses over a set of workers.
type Pool struct {
	mu                              sync.Mutex
	cond                            *sync.Cond
	exs                             []*Explorer
	active                          int
	stop                            bool
	deadline                        time.Time
	err                             error
	queries, nsat, nunsat, nunknown int64
	solverTime                      time.Duration
	steps                           int64
}

func (p *Pool) push(ex *Explorer, d []decision) {
	p.mu.Lock()
	ex.queue = append(ex.queue, d)
	p.mu.Unlock()
	p.cond.Signal()
}

// pop prefers the harness that has used the least time so far.
func (p *Pool) pop() (*Explorer, []decision) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if !p.stop && time.Now().After(p.deadline) {
			p.stop = true
			for _, ex := range p.exs {
				if len(ex.queue) > 0 || ex.active > 0 {
					ex.timedOut = true
				}
			}
		}
		if p.stop {
			p.cond.Broadcast()
			return nil, nil
		}
		var best *Explorer
		for _, ex := range p.exs {
			if len(ex.queue) == 0 {
				continue
			}
			if best == nil || ex.spent+time.Duration(ex.active)*50*time.Millisecond < best.spent+time.Duration(best.active)*50*time.Millisecond {
				best = ex
			}
		}
		if best != nil {
			n := len(best.queue)
			var d []decision
			if best.fifo {
				d = best.queue[0]
				best.queue = best.queue[1:]
			} else {
				d = best.queue[n-1]
				best.queue = best.queue[:n-1]
			}
			best.active++
			p.active++
			return best, d
		}
		if p.active == 0 {
			p.cond.Broadcast()
			return nil, nil
		}
		p.cond.Wait()
	}
}

func (p *Pool) done(ex *Explorer, t time.Duration) {
	p.mu.Lock()
	ex.active--
	p.active--
	ex.spent += t
	p.mu.Unlock()
	p.cond.Broadcast()
}

func runPool(P *Program, exs []*Explorer, workers int, deadline time.Time, solverBin string, timeoutMs int) (*Pool, error) {
	p := &Pool{exs: exs, deadline: deadline}
	p.cond = sync.NewCond(&p.mu)
	entries := map[*Explorer]*ssa.Function{}
	for _, ex := range exs {
		e := P.findHarness(ex.harness)
		if e == nil {
			return nil, fmt.Errorf("harness %s not found", ex.harness)
		}
		entries[ex] = e
		ex.pool = p
		ex.queue = [][]decision{nil}
	}
	// a waiter may sleep past the deadline otherwise
	timer := time.AfterFunc(time.Until(deadline)+10*time.Millisecond, func() { p.cond.Broadcast() })
	defer timer.Stop()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		s, err := newSolver(solverBin, timeoutMs)
		if err != nil {
			return nil, err
		}
		m := &Machine{P: P, id: i, solver: s, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{},
			infos: map[*ssa.Function]*fnInfo{}, mcache: map[string]*ssa.Function{}, concLimit: 100}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				ex, d := p.pop()
				if ex == nil {
					break
				}
				t0 := time.Now()
				m.ex = ex
				m.curFns = map[*ssa.Function]bool{}
				q0, sp0 := s.queries, s.spent
				m.runPath(entries[ex], d)
				ex.mu.Lock()
				ex.queries += s.queries - q0
				ex.solverTime += s.spent - sp0
				for f := range m.curFns {
					ex.fns[f.String()] = true
				}
				ex.mu.Unlock()
				p.done(ex, time.Since(t0))
			}
			s.close()
			p.mu.Lock()
			p.queries += s.queries
			p.nsat += s.sat
			p.nunsat += s.unsat
			p.nunknown += s.unknown
			p.solverTime += s.spent
			p.steps += m.steps
			if s.errs > 0 && p.err == nil {
				p.err = fmt.Errorf("solver error: %s", s.lastErr)
			}
			p.mu.Unlock()
		}()
	}
	wg.Wait()
	for _, ex := range exs {
		ex.leftover = len(ex.queue)
	}
	return p, p.err
}
