package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Model is an assignment of the variables; variables without a value take the
// lower end of their domain.
type Model struct {
	val []uint64
	set []bool
}

func (m *Model) get(tb *TB, id int) uint64 {
	if id < len(m.val) && m.set[id] {
		return m.val[id]
	}
	v := tb.vars[id]
	return uint64(v.lo) & maskW(v.w)
}

func (m *Model) clone() *Model {
	return &Model{append([]uint64(nil), m.val...), append([]bool(nil), m.set...)}
}

func (m *Model) put(id int, v uint64) {
	for id >= len(m.val) {
		m.val = append(m.val, 0)
		m.set = append(m.set, false)
	}
	m.val[id], m.set[id] = v, true
}

type cacheEnt struct {
	sat bool
	ids []int
	val []uint64
}

type sampleQuery struct {
	text string
	sat  bool
}

type Solver struct {
	tb           *TB
	argv         []string
	cmd          *exec.Cmd
	in           *bufio.Writer
	out          *bufio.Reader
	stdin        io.WriteCloser
	emitted      map[int32]bool
	declV        map[int]bool
	cache        map[string]*cacheEnt
	sinceRestart int

	nQuery, nHit, nSat, nUnsat, nUnknown int
	solveTime                            time.Duration
	maxTime                              time.Duration
	samples                              []sampleQuery
	unsatCtr                             int
}

var solverArgv = []string{"z3", "-in"}
var solverTimeoutMs = 60000

func newSolver(tb *TB) *Solver {
	return &Solver{tb: tb, argv: solverArgv, cache: map[string]*cacheEnt{}}
}

func (s *Solver) start() error {
	s.stop()
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.stdin = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[int32]bool{}
	s.declV = map[int]bool{}
	s.sinceRestart = 0
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", solverTimeoutMs)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(w io.Writer, t *Term, seen map[int32]bool, declV map[int]bool) {
	if t == nil || t.op == OConst {
		return
	}
	if t.op == OVar {
		id := int(t.k)
		if !declV[id] {
			declV[id] = true
			v := s.tb.vars[id]
			fmt.Fprintf(w, "(declare-const %s %s)\n", v.name, sortOf(v.w))
		}
		return
	}
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	s.emit(w, t.a, seen, declV)
	s.emit(w, t.b, seen, declV)
	s.emit(w, t.c, seen, declV)
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), s.tb.body(t))
}

func (s *Solver) collectVars(ts []*Term) []int {
	seen := map[int32]bool{}
	vars := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst {
			return
		}
		if t.op == OVar {
			vars[int(t.k)] = true
			return
		}
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	for _, t := range ts {
		rec(t)
	}
	ids := make([]int, 0, len(vars))
	for id := range vars {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func domainAssert(v *VarInfo) string {
	if v.w == 0 {
		return ""
	}
	full := v.lo <= smin(v.w) && v.hi >= smax(v.w) || v.lo == 0 && uint64(v.hi) >= maskW(v.w)
	if full {
		return ""
	}
	lo, hi := bvConst(v.w, uint64(v.lo)&maskW(v.w)), bvConst(v.w, uint64(v.hi)&maskW(v.w))
	if v.lo >= 0 {
		return fmt.Sprintf("(assert (and (bvule %s %s) (bvule %s %s)))\n", lo, v.name, v.name, hi)
	}
	return fmt.Sprintf("(assert (and (bvsle %s %s) (bvsle %s %s)))\n", lo, v.name, v.name, hi)
}

// standalone renders the query as a complete SMT-LIB script.
func (s *Solver) standalone(ts []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen, decl := map[int32]bool{}, map[int]bool{}
	for _, t := range ts {
		s.emit(&sb, t, seen, decl)
	}
	for id := range decl {
		sb.WriteString(domainAssert(s.tb.vars[id]))
	}
	for _, t := range ts {
		sb.WriteString("(assert " + s.tb.ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

type unknownErr struct{ msg string }

// check decides the satisfiability of the conjunction of ts.
// On sat the returned entry holds values for the variables of ts.
func (s *Solver) check(ts []*Term) (*cacheEnt, error) {
	// canonical key
	ids := make([]int, 0, len(ts))
	for _, t := range ts {
		if t.isConst() {
			if t.k == 0 {
				return &cacheEnt{}, nil
			}
			continue
		}
		ids = append(ids, int(t.id))
	}
	sort.Ints(ids)
	key := make([]byte, 0, len(ids)*4)
	last := -1
	for _, id := range ids {
		if id == last {
			continue
		}
		last = id
		key = append(key, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	if e, ok := s.cache[string(key)]; ok {
		s.nHit++
		return e, nil
	}
	e, err := s.query(ts)
	if err != nil {
		// one retry with a fresh process
		if err2 := s.start(); err2 != nil {
			return nil, err2
		}
		e, err = s.query(ts)
		if err != nil {
			s.nUnknown++
			return nil, err
		}
	}
	s.cache[string(key)] = e
	if !e.sat {
		s.unsatCtr++
		if s.unsatCtr%199 == 1 && len(s.samples) < 12 {
			s.samples = append(s.samples, sampleQuery{s.standalone(ts), false})
		}
	}
	return e, nil
}

func (s *Solver) query(ts []*Term) (*cacheEnt, error) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.solveTime += d
		if d > s.maxTime {
			s.maxTime = d
		}
	}()
	if s.cmd == nil || s.sinceRestart > 20000 {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	s.sinceRestart++
	s.nQuery++
	for _, t := range ts {
		s.emit(s.in, t, s.emitted, s.declV)
	}
	vars := s.collectVars(ts)
	s.in.WriteString("(push 1)\n")
	for _, id := range vars {
		s.in.WriteString(domainAssert(s.tb.vars[id]))
	}
	for _, t := range ts {
		s.in.WriteString("(assert " + s.tb.ref(t) + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		s.nUnsat++
		s.in.WriteString("(pop 1)\n")
		return &cacheEnt{}, nil
	case "sat":
		s.nSat++
		e := &cacheEnt{sat: true, ids: vars}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, id := range vars {
				s.in.WriteString(s.tb.vars[id].name + " ")
			}
			s.in.WriteString("))\n")
		}
		s.in.WriteString("(pop 1)\n")
		if err := s.in.Flush(); err != nil {
			return nil, err
		}
		if len(vars) > 0 {
			txt, err := readSexp(s.out)
			if err != nil {
				return nil, err
			}
			if strings.Contains(txt, "(error") {
				return nil, fmt.Errorf("solver: %s", txt)
			}
			vals, err := parseValues(txt)
			if err != nil {
				return nil, err
			}
			for _, id := range vars {
				v, ok := vals[s.tb.vars[id].name]
				if !ok {
					return nil, fmt.Errorf("solver gave no value for %s", s.tb.vars[id].name)
				}
				e.val = append(e.val, v)
			}
		}
		return e, nil
	}
	if strings.HasPrefix(line, "(error") {
		return nil, fmt.Errorf("solver: %s", line)
	}
	return nil, fmt.Errorf("solver answered %q", line)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth, started := 0, false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			r.ReadString('\n')
			return sb.String(), nil
		}
	}
}

func parseValues(txt string) (map[string]uint64, error) {
	res := map[string]uint64{}
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i++ {
		if f[i] == "(" && strings.HasPrefix(f[i+1], "v") && i+2 < len(f) {
			name, v := f[i+1], f[i+2]
			switch {
			case strings.HasPrefix(v, "#x"):
				n, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return nil, err
				}
				res[name] = n
			case strings.HasPrefix(v, "#b"):
				n, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return nil, err
				}
				res[name] = n
			case v == "true":
				res[name] = 1
			case v == "false":
				res[name] = 0
			case v == "(" && i+4 < len(f) && f[i+3] == "_" && strings.HasPrefix(f[i+4], "bv"):
				n, err := strconv.ParseUint(f[i+4][2:], 10, 64)
				if err != nil {
					return nil, err
				}
				res[name] = n
			default:
				return nil, fmt.Errorf("cannot parse value %q", v)
			}
		}
	}
	return res, nil
}

// slice returns the constraints of pc that share variables (transitively)
// with the extra constraint, plus extra itself.
func sliceConstraints(pc []*Term, extra *Term) []*Term {
	vs := extra.vs
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if !used[i] && t.vs.intersects(&vs) {
				used[i] = true
				vs.or(&t.vs)
				changed = true
			}
		}
	}
	res := make([]*Term, 0, len(pc)+1)
	for i, t := range pc {
		if used[i] {
			res = append(res, t)
		}
	}
	return append(res, extra)
}
