package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

type solverStats struct {
	Z3Queries   int64
	Z3Sat       int64
	Z3Unsat     int64
	Z3Unknown   int64
	DomQueries  int64 // decided by byte-domain propagation
	LocalSat    int64 // satisfiable by a model found by local search
	ModelHits   int64 // decided by the current model
	CacheHits   int64
	CrossChecks int64 // domain verdicts confirmed by z3
	CrossFails  int64
	Asserts     int64 // assertions discharged by a solver query
	AssertConst int64 // assertions that were constant on their path
	SolverTime  time.Duration
}

func (a *solverStats) add(b *solverStats) {
	a.Z3Queries += b.Z3Queries
	a.Z3Sat += b.Z3Sat
	a.Z3Unsat += b.Z3Unsat
	a.Z3Unknown += b.Z3Unknown
	a.DomQueries += b.DomQueries
	a.LocalSat += b.LocalSat
	a.ModelHits += b.ModelHits
	a.CacheHits += b.CacheHits
	a.CrossChecks += b.CrossChecks
	a.CrossFails += b.CrossFails
	a.Asserts += b.Asserts
	a.AssertConst += b.AssertConst
	a.SolverTime += b.SolverTime
}

type cacheEnt struct {
	res   satRes
	model map[int32]uint64
}

type Solver struct {
	db     *termDB
	cmd    *exec.Cmd
	in     *bufio.Writer
	inRaw  io.WriteCloser
	out    *bufio.Reader
	gen    int32
	nq     int
	cache  map[string]cacheEnt
	st     solverStats
	toMs   int
	log    *strings.Builder // sampled self-contained queries for the cross-check by another solver
	logged []loggedQuery
	seen   int
}

type loggedQuery struct {
	text string
	res  satRes
}

var z3bin = "z3"

func newSolver(db *termDB) *Solver {
	s := &Solver{db: db, cache: map[string]cacheEnt{}, toMs: 20000}
	return s
}

func (s *Solver) start() {
	s.stop()
	s.gen++
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("z3: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("z3: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start z3: %v", err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.toMs)
	s.nq = 0
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check decides the conjunction of cs and returns a model of all their variables if sat.
func (s *Solver) check(cs []*Term) (satRes, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c.isFalse() {
			return unsat, nil
		}
		if c.isTrue() {
			continue
		}
		ids = append(ids, int(c.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.st.CacheHits++
		return e.res, e.model
	}
	t0 := time.Now()
	res, m := s.query(cs)
	s.st.SolverTime += time.Since(t0)
	s.st.Z3Queries++
	switch res {
	case sat:
		s.st.Z3Sat++
	case unsat:
		s.st.Z3Unsat++
	default:
		s.st.Z3Unknown++
	}
	if len(s.cache) > 400000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{res, m}
	return res, m
}

func (s *Solver) query(cs []*Term) (satRes, map[int32]uint64) {
	if s.cmd == nil || s.nq > 20000 {
		s.start()
	}
	s.nq++
	var sb strings.Builder
	var vars []int32
	var leaves []*Term
	for _, c := range cs {
		c.emit(&sb, s.gen)
		vars = mergeVars(vars, c.vars)
	}
	seenLeaf := map[int32]bool{}
	var collect func(t *Term)
	visited := map[int32]bool{}
	collect = func(t *Term) {
		if t == nil || visited[t.id] {
			return
		}
		visited[t.id] = true
		if t.op == OpVar {
			if !seenLeaf[t.id] {
				seenLeaf[t.id] = true
				leaves = append(leaves, t)
			}
			return
		}
		collect(t.x)
		collect(t.y)
		collect(t.z)
	}
	for _, c := range cs {
		collect(c)
	}
	sb.WriteString("(push)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(c.ref())
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	line := s.readLine()
	res := unknown
	switch line {
	case "sat":
		res = sat
	case "unsat":
		res = unsat
	case "unknown", "timeout":
		res = unknown
	default:
		// an (error line or a dead solver: inconclusive, restart
		if os.Getenv("SYMX_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3 said:", line, sb.String())
		}
		s.start()
		return unknown, nil
	}
	var model map[int32]uint64
	if res == sat {
		model = map[int32]uint64{}
		if len(leaves) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, l := range leaves {
				g.WriteString(l.ref())
				g.WriteByte(' ')
			}
			g.WriteString("))\n")
			s.in.WriteString(g.String())
			s.in.Flush()
			txt := s.readSexp()
			parseModel(txt, model)
		}
	}
	s.in.WriteString("(pop)\n")
	s.seen++
	if s.seen&(s.seen-1) == 0 || s.seen%997 == 0 { // sample for the cross-check
		if len(s.logged) < 40 {
			s.logged = append(s.logged, loggedQuery{selfContained(cs), res})
		}
	}
	return res, model
}

func selfContained(cs []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BVFP)\n")
	seen := map[int32]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		rec(t.x)
		rec(t.y)
		rec(t.z)
		if t.op == OpVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", t.ref(), sortName(t.w), t.body())
		}
	}
	for _, c := range cs {
		rec(c)
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error dead)"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String()
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return sb.String()
		}
	}
}

// parseModel reads "((v0_8 #x41) (v1_0 true) ...)".
func parseModel(txt string, m map[int32]uint64) {
	toks := tokenizeSexp(txt)
	i := 0
	for i < len(toks) {
		if strings.HasPrefix(toks[i], "v") && strings.Contains(toks[i], "_") {
			name := toks[i]
			us := strings.IndexByte(name, '_')
			idx, _ := strconv.Atoi(name[1:us])
			if i+1 < len(toks) {
				v, n := parseValue(toks, i+1)
				m[int32(idx)] = v
				i += 1 + n
				continue
			}
		}
		i++
	}
}

func parseValue(toks []string, i int) (uint64, int) {
	t := toks[i]
	switch {
	case t == "true":
		return 1, 1
	case t == "false":
		return 0, 1
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v, 1
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v, 1
	case t == "(" && i+4 < len(toks) && toks[i+1] == "fp":
		a, _ := strconv.ParseUint(toks[i+2][2:], 2, 64)
		b := parseBits(toks[i+3])
		c := parseBits(toks[i+4])
		return a<<63 | b<<52 | c, 6
	case t == "(" && i+2 < len(toks) && toks[i+1] == "_":
		switch toks[i+2] {
		case "+zero":
			return 0, 6
		case "-zero":
			return 1 << 63, 6
		case "+oo":
			return 0x7ff << 52, 6
		case "-oo":
			return 0xfff << 52, 6
		case "NaN":
			return 0x7ff8 << 48, 6
		}
	}
	return 0, 1
}

func parseBits(t string) uint64 {
	if strings.HasPrefix(t, "#x") {
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v
	}
	v, _ := strconv.ParseUint(t[2:], 2, 64)
	return v
}

func tokenizeSexp(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}
