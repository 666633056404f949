package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugEngine = os.Getenv("ENGINE_DEBUG") != ""
var debugLog = os.Getenv("ENGINE_LOG") != ""

type Finding struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Values  []ReplayVal       `json:"values"`
	Env     map[string]string `json:"env"`
	Tier    int               `json:"tier"`
	Params  map[string]int    `json:"params"`
	Obs     []ReplayObs       `json:"-"`
}

type ReplayVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    int64  `json:"v"`
}

type ReplayObs struct {
	Label string `json:"label"`
	S     string `json:"s"`
}

type Explorer struct {
	P        *Program
	h        *HarnessSpec
	root     *ssa.Function
	tier     int
	env      map[string]string
	workers  int
	deadline time.Time
	maxSteps int64
	sampleN  int

	mu        sync.Mutex
	cond      *sync.Cond
	queue     [][]int64
	idle      int32
	stop      atomic.Bool
	done      bool
	onFinding func(*Finding) bool // true = stop

	nPaths, nAssume, nViol, nUnsup atomic.Int64
	nAssert, nFolded               atomic.Int64
	reach                          map[string]int64
	unsup                          map[string]int
	viols                          map[string]int
	samples                        []*Finding
	timedOut                       atomic.Bool
	stats                          ExStats
	machines                       []*Machine
	sampleEvery                    int64
}

type ExStats struct {
	Steps, Forks, Branches, Merges     int64
	Queries, Hits, Sat, Unsat, Unknown int
	SolverS, MaxQueryS                 float64
	CrossChecked, CrossMismatch        int
}

func (ex *Explorer) run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.reach = map[string]int64{}
	ex.unsup = map[string]int{}
	ex.viols = map[string]int{}
	ex.queue = [][]int64{{}}
	ex.sampleEvery = 1
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker()
		}()
	}
	wg.Wait()
	for _, m := range ex.machines {
		ex.stats.Steps += m.totSteps
		ex.stats.Forks += m.forks
		ex.stats.Branches += m.branches
		ex.stats.Merges += m.merges
		s := m.sol
		ex.stats.Queries += s.nQuery
		ex.stats.Hits += s.nHit
		ex.stats.Sat += s.nSat
		ex.stats.Unsat += s.nUnsat
		ex.stats.Unknown += s.nUnknown
		ex.stats.SolverS += s.solveTime.Seconds()
		ex.stats.MaxQueryS = max(ex.stats.MaxQueryS, s.maxTime.Seconds())
		s.stop()
	}
}

func (ex *Explorer) take() ([]int64, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt32(&ex.idle, 1)
	for len(ex.queue) == 0 {
		if ex.done || ex.stop.Load() {
			return nil, false
		}
		if int(atomic.LoadInt32(&ex.idle)) == ex.workers {
			ex.done = true
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
	n := len(ex.queue) - 1
	it := ex.queue[n]
	ex.queue = ex.queue[:n]
	atomic.AddInt32(&ex.idle, -1)
	return it, true
}

func (ex *Explorer) put(p []int64) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, p)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) newMachine() *Machine {
	tb := newTB()
	m := &Machine{P: ex.P, tb: tb, sol: newSolver(tb), env: ex.env, tier: ex.tier, model: &Model{}, ex: ex, maxSteps: 200_000_000}
	m.params = ex.h.Params
	return m
}

// initProgram runs the package initialisers reachable from the harness package.
func (m *Machine) initProgram(pkg *ssa.Package) error {
	m.noFork = true
	m.gs = []*G{{}}
	m.g = m.gs[0]
	m.pushFrame(m.P.fnOf(pkg.Func("init")), nil, nil, -1)
	end := m.run()
	if end.kind != "ok" {
		return fmt.Errorf("package initialisation: %s %s", end.kind, end.msg)
	}
	m.noFork = false
	m.initDone = true
	m.steps = 0
	return nil
}

func (ex *Explorer) worker() {
	m := ex.newMachine()
	ex.mu.Lock()
	ex.machines = append(ex.machines, m)
	ex.mu.Unlock()
	if err := m.initProgram(ex.root.Pkg); err != nil {
		ex.mu.Lock()
		ex.unsup[err.Error()]++
		ex.nUnsup.Add(1)
		ex.stop.Store(true)
		ex.cond.Broadcast()
		ex.mu.Unlock()
		return
	}
	m.maxSteps = ex.maxSteps
	m.trailOn = true
	rootFn := ex.P.fnOf(ex.root)
	for {
		prefix, ok := ex.take()
		if !ok {
			return
		}
		// fresh start
		m.undoTo(0)
		m.gs = []*G{{}}
		m.cur = 0
		m.g = m.gs[0]
		m.pc, m.decs, m.inputs, m.obs = m.pc[:0], m.decs[:0], m.inputs[:0], m.obs[:0]
		m.steps, m.nvar, m.nblocked = 0, 0, 0
		m.reach = nil
		m.choices = nil
		m.setModel(&Model{})
		m.needModel = false
		m.pendingModel = nil
		m.script, m.scriptP = nil, 0
		if len(prefix) > 0 {
			m.script = prefix
		}
		m.pushFrame(rootFn, nil, nil, -1)
		for {
			end := m.run()
			ex.finish(m, end)
			if ex.stop.Load() {
				ex.mu.Lock()
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			if time.Now().After(ex.deadline) {
				ex.timedOut.Store(true)
				ex.stop.Store(true)
				continue
			}
			if len(m.choices) == 0 {
				break
			}
			if atomic.LoadInt32(&ex.idle) > 0 {
				ex.donate(m)
				if len(m.choices) == 0 {
					break
				}
			}
			m.backtrack()
		}
	}
}

func (ex *Explorer) donate(m *Machine) {
	// give away the alternatives of the oldest choice point
	for len(m.choices) > 0 {
		ch := m.choices[0]
		n := len(ch.alts)
		k := (n + 1) / 2
		if len(m.choices) == 1 && n == 1 {
			return // keep something to do
		}
		for i := 0; i < k; i++ {
			alt := ch.alts[0]
			ch.alts = ch.alts[1:]
			p := make([]int64, 0, ch.decLen+len(ch.script)+1)
			p = append(p, m.decs[:ch.decLen]...)
			p = append(p, ch.script...)
			p = append(p, alt.dec)
			ex.put(p)
		}
		if len(ch.alts) == 0 {
			m.choices = append([]*Choice(nil), m.choices[1:]...)
		}
		return
	}
}

func (ex *Explorer) values(m *Machine) []ReplayVal {
	var vs []ReplayVal
	for _, in := range m.inputs {
		v := in.c
		if in.t != nil {
			x := m.tb.eval(in.t, m.model)
			if in.signed {
				v = sx(x, in.w)
			} else {
				v = int64(x)
			}
		}
		vs = append(vs, ReplayVal{in.Name, in.Kind, v})
	}
	return vs
}

func (ex *Explorer) obsOf(m *Machine) []ReplayObs {
	var r []ReplayObs
	for _, o := range m.obs {
		s := ""
		if o.kind == KString {
			s = m.showStr(o.v)
		} else {
			x := o.v.c
			if o.v.t != nil {
				x = m.tb.eval(o.v.t, m.model)
			}
			s = fmt.Sprint(sx(x, o.w))
		}
		r = append(r, ReplayObs{o.label, s})
	}
	return r
}

func (ex *Explorer) finish(m *Machine, end pathEnd) {
	switch end.kind {
	case "assume":
		ex.nAssume.Add(1)
		return
	case "ok":
		n := ex.nPaths.Add(1)
		if len(m.reach) > 0 || n%atomic.LoadInt64(&ex.sampleEvery) == 0 {
			ex.mu.Lock()
			for k := range m.reach {
				ex.reach[k]++
			}
			if n%ex.sampleEvery == 0 && ex.sampleN > 0 {
				if f := ex.mkFinding(m, ""); f != nil {
					ex.samples = append(ex.samples, f)
				}
				if len(ex.samples) >= 2*ex.sampleN {
					// thin out: keep every second, sample half as often
					var k []*Finding
					for i := 0; i < len(ex.samples); i += 2 {
						k = append(k, ex.samples[i])
					}
					ex.samples = k
					ex.sampleEvery *= 2
				}
			}
			ex.mu.Unlock()
		}
		return
	case "unsupported":
		ex.nUnsup.Add(1)
		ex.mu.Lock()
		ex.unsup[end.msg]++
		ex.mu.Unlock()
		return
	case "violation":
		ex.nViol.Add(1)
		ex.mu.Lock()
		ex.viols[end.msg]++
		n := ex.viols[end.msg]
		ex.mu.Unlock()
		if n > 12 {
			return
		}
		f := ex.mkFinding(m, end.msg)
		if f == nil {
			return
		}
		if ex.onFinding != nil && ex.onFinding(f) {
			ex.stop.Store(true)
		}
	}
}

func (ex *Explorer) mkFinding(m *Machine, msg string) (f *Finding) {
	defer func() {
		if r := recover(); r != nil {
			f = nil
		}
	}()
	m.ensureModel()
	return &Finding{Harness: ex.h.Func, Msg: msg, Values: ex.values(m), Env: ex.env, Tier: ex.tier, Params: ex.h.Params, Obs: ex.obsOf(m)}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Slice(k, func(i, j int) bool { return m[k[i]] > m[k[j]] || m[k[i]] == m[k[j]] && k[i] < k[j] })
	return k
}
