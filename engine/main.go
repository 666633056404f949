package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replayResult struct {
	status string // held, violated, assume, diverged, timeout, error
	msg    string
	obs    []ReplayObs
	out    string
}

var replaySem = make(chan struct{}, 8)

func nativeReplay(bin string, f *Finding, dir string, timeout time.Duration) replayResult {
	replaySem <- struct{}{}
	defer func() { <-replaySem }()
	b, _ := json.Marshal(f)
	tmp, err := os.CreateTemp(dir, "in-*.json")
	if err != nil {
		return replayResult{status: "error", msg: err.Error()}
	}
	tmp.Write(b)
	tmp.Close()
	defer os.Remove(tmp.Name())
	return replayFile(bin, tmp.Name(), f.Env, timeout)
}

func replayFile(bin, path string, env map[string]string, timeout time.Duration) replayResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, path)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "LANG=C", "LC_ALL=C", "HOME=/nonexistent", "GOMEMLIMIT=2GiB", "GOTRACEBACK=single", "TMPDIR=" + filepath.Dir(bin)}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	cmd.Dir = filepath.Dir(bin)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	res := replayResult{out: ob.String() + eb.String()}
	for _, l := range strings.Split(ob.String(), "\n") {
		if strings.HasPrefix(l, "OBS ") {
			var o ReplayObs
			if json.Unmarshal([]byte(l[4:]), &o) == nil {
				res.obs = append(res.obs, o)
			}
		}
	}
	if ctx.Err() != nil {
		res.status, res.msg = "timeout", "did not finish in "+timeout.String()
		return res
	}
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		res.status, res.msg = "error", err.Error()
		return res
	}
	last := func(prefix string) string {
		for _, l := range strings.Split(ob.String(), "\n") {
			if strings.HasPrefix(l, prefix) {
				return strings.TrimSpace(l[len(prefix):])
			}
		}
		return ""
	}
	switch code {
	case 0:
		res.status = "held"
	case 10:
		res.status, res.msg = "violated", last("VIOLATED ")
	case 11:
		res.status = "assume"
	case 12:
		res.status, res.msg = "diverged", last("DIVERGED ")
	default:
		// a crash of the code under test (panic, fatal error)
		s := eb.String()
		if len(s) > 600 {
			s = s[:600]
		}
		res.status, res.msg = "violated", "crash: "+strings.ReplaceAll(strings.TrimSpace(s), "\n", " | ")
	}
	return res
}

func main() {
	prop := flag.String("property", "", "property id")
	only := flag.String("harness", "", "run only this harness function")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	workers := flag.Int("workers", min(8, runtime.NumCPU()), "parallel workers")
	budget := flag.Int("budget", 0, "seconds for all harnesses of the property (0 = by tier)")
	replay := flag.String("replay", "", "replay a recorded counterexample natively")
	cpuprof := flag.String("cpuprofile", "", "")
	all := flag.Bool("all", false, "do not stop at the first violation")
	noEv := flag.Bool("noevidence", false, "do not write evidence")
	verbose := flag.Bool("v", false, "verbose")
	self := flag.Bool("selftest", false, "check that the solver answers")
	flag.Parse()
	if *self {
		os.Exit(selftest())
	}
	if *tier == "" {
		*tier = "quick"
	}
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		solverArgv = strings.Fields(s)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		os.Exit(doReplay(*repo, *verif, *replay))
	}
	code := check(*repo, *verif, *prop, *only, *tier, *workers, *budget, *all, *noEv, *verbose)
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func selftest() int {
	tb := newTB()
	s := newSolver(tb)
	defer s.stop()
	x := tb.Var("x", 0, 16, 3, 900)
	sq := tb.Bin(OMul, x, x)
	a, err1 := s.check([]*Term{tb.Eq(sq, tb.Const(16, 49))})
	b, err2 := s.check([]*Term{tb.Eq(tb.Bin(OBAnd, sq, tb.Const(16, 3)), tb.Const(16, 2))})
	if err1 != nil || err2 != nil || !a.sat || b.sat {
		fmt.Fprintln(os.Stderr, "selftest: the solver does not answer as expected:", err1, err2)
		return 1
	}
	fmt.Println("selftest: ok")
	return 0
}

func doReplay(repo, verif, path string) int {
	ws, err := newWorkspace(repo, verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer ws.close()
	bin, err := ws.buildNative()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Finding
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	abs, _ := filepath.Abs(path)
	r := replayFile(bin, abs, f.Env, 20*time.Second)
	fmt.Printf("%s %s\n%s", r.status, r.msg, r.out)
	if r.status == "violated" || r.status == "timeout" {
		return 1
	}
	return 0
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var k []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var x knownFinding
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
		k = append(k, x)
	}
	return k, nil
}

func check(repo, verif, prop, only, tier string, workers, budget int, all, noEv, verbose bool) int {
	t0 := time.Now()
	fail := func(err error) int {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	sb, err := os.ReadFile(filepath.Join(verif, "harness", "suite.json"))
	if err != nil {
		return fail(err)
	}
	var suite Suite
	if err := json.Unmarshal(sb, &suite); err != nil {
		return fail(fmt.Errorf("suite.json: %v", err))
	}
	var hs []*HarnessSpec
	for _, h := range suite.Harnesses {
		if tier == "thorough" && h.TParams != nil {
			p := map[string]int{}
			for k, v := range h.Params {
				p[k] = v
			}
			for k, v := range h.TParams {
				p[k] = v
			}
			h.Params = p
		}
		if (prop == "" || h.Property == prop) && (only == "" || h.Func == only) && !h.Skip[tier] {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return fail(fmt.Errorf("no harness for property %q", prop))
	}
	if prop == "" {
		prop = hs[0].Property
	}
	known, err := loadKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return fail(err)
	}
	ws, err := newWorkspace(repo, verif)
	if err != nil {
		return fail(err)
	}
	defer ws.close()
	var bin string
	var berr error
	var bw sync.WaitGroup
	bw.Add(1)
	go func() {
		defer bw.Done()
		bin, berr = ws.buildNative()
	}()
	P, hp, err := ws.load()
	bw.Wait()
	if berr != nil {
		return fail(berr)
	}
	if err != nil {
		return fail(err)
	}
	tLoad := time.Since(t0)
	if verbose {
		fmt.Printf("loaded in %.1fs\n", tLoad.Seconds())
	}
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 3600
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	tnum := 0
	if tier == "thorough" {
		tnum = 1
	}
	ev := newEvidence(prop, tier)
	code := 0
	remaining := 0
	for _, h := range hs {
		remaining += max(1, len(h.Envs))
	}
	for _, h := range hs {
		envs := h.Envs
		if len(envs) == 0 {
			envs = []map[string]string{h.Env}
		}
		root := hp.Func(h.Func)
		if root == nil {
			return fail(fmt.Errorf("harness function %s missing", h.Func))
		}
		reachAll := map[string]int64{}
		for _, env := range envs {
			env2 := map[string]string{"LANG": "C", "LC_ALL": "C"}
			for k, v := range env {
				env2[k] = v
			}
			now := time.Now()
			slot := deadline.Sub(now) / time.Duration(remaining)
			if slot < 0 {
				slot = 0
			}
			// unused time of the earlier ones is shared by the later ones; a
			// harness may take up to three shares
			hd := now.Add(min(3*slot, deadline.Sub(now)))
			remaining--
			ex := &Explorer{P: P, h: h, root: root, tier: tnum, env: env2, workers: workers, deadline: hd, maxSteps: h.MaxSteps, sampleN: 12}
			if ex.maxSteps == 0 {
				ex.maxSteps = 3_000_000
			}
			hr := &harnessResult{Harness: h.Func, What: h.What, Bounds: h.Bounds[tier], Env: env}
			if hr.Bounds == "" {
				hr.Bounds = h.Bounds["quick"]
			}
			var rmu sync.Mutex
			seenKnown := map[string]bool{}
			ex.onFinding = func(f *Finding) bool {
				r := nativeReplay(bin, f, ws.dir, 20*time.Second)
				rmu.Lock()
				defer rmu.Unlock()
				if verbose {
					fmt.Printf("  candidate [%s] native: %s %s\n    values: %s\n", f.Msg, r.status, r.msg, showVals(f.Values))
				}
				if r.status != "violated" && r.status != "timeout" {
					hr.Unconfirmed = append(hr.Unconfirmed, fmt.Sprintf("%s -> native %s %s; values %s", f.Msg, r.status, r.msg, showVals(f.Values)))
					return false
				}
				for _, k := range known {
					if k.Fixed == "" && k.Property == prop && (k.Harness == "" || k.Harness == f.Harness) && k.Message == f.Msg {
						if !seenKnown[k.What] {
							seenKnown[k.What] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
							hr.Known = append(hr.Known, k.What)
						}
						return false
					}
				}
				p := writeReplay(verif, prop, f, r)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
				fmt.Printf("  %s: %s\n  native run: %s %s\n  values: %s\n", f.Harness, f.Msg, r.status, r.msg, showVals(f.Values))
				hr.Violations = append(hr.Violations, f.Msg+" ["+p+"]")
				code = 1
				return !all || len(hr.Violations) > 40
			}
			ht := time.Now()
			ex.run()
			hr.WallS = time.Since(ht).Seconds()
			hr.fill(ex)
			for k, v := range ex.reach {
				reachAll[k] += v
			}
			if code == 0 {
				hr.validate(ex, bin, ws.dir)
				hr.crossCheck(ex)
				hr.Complete = hr.Complete && hr.TraceMismatch == 0 && hr.CrossBad == 0
			}
			ev.add(hr)
			if verbose || len(hr.Unconfirmed) > 0 || hr.Unsupported > 0 || hr.TimedOut || hr.TraceMismatch > 0 {
				hr.print()
			}
			fmt.Printf("%s %s: paths=%d pruned=%d asserts=%d queries=%d (cached %d) solver=%.1fs wall=%.1fs%s\n", prop, h.Func, hr.Paths, hr.Pruned, hr.Asserts, hr.Queries, hr.CacheHits, hr.SolverS, hr.WallS, hr.flags())
			if code != 0 && !all {
				break
			}
		}
		if code == 0 {
			for _, l := range h.Reach {
				if reachAll[l] == 0 {
					ev.notes = append(ev.notes, fmt.Sprintf("%s: label %q not reached on this tree", h.Func, l))
					fmt.Printf("note: %s: %q not reached\n", h.Func, l)
				}
			}
		}
		if code != 0 && !all {
			break
		}
	}
	ev.functions = encodedFunctions(P)
	if !noEv {
		if err := ev.write(verif, suite.Assumptions[prop], time.Since(t0).Seconds()); err != nil {
			return fail(err)
		}
	}
	return code
}

func showVals(v []ReplayVal) string {
	var s []string
	for _, x := range v {
		t := strconv.FormatInt(x.V, 10)
		if x.Kind == "rune" {
			t = fmt.Sprintf("U+%04X", x.V)
		}
		s = append(s, x.Name+"="+t)
	}
	return strings.Join(s, " ")
}

func writeReplay(verif, prop string, f *Finding, r replayResult) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, f.Harness))
	for i := 2; i < 50; i++ {
		if _, err := os.Stat(p); err != nil {
			break
		}
		if st, err := os.Stat(p); err == nil && st.ModTime().Before(startTime) {
			break
		}
		p = filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, f.Harness, i))
	}
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

var startTime = time.Now()

func encodedFunctions(P *Program) []string {
	P.mu.Lock()
	defer P.mu.Unlock()
	var r []string
	for _, f := range P.fns {
		if f.inited && f.pkg != nil && strings.HasPrefix(f.pkg.Pkg.Path(), modPath) && !strings.HasSuffix(f.pkg.Pkg.Path(), "verifharness") {
			if f.ssa.Name() == "init" {
				continue
			}
			r = append(r, strings.ReplaceAll(f.name, modPath, "readline"))
		}
	}
	sort.Strings(r)
	return r
}
