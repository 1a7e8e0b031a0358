package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- shared state -------------------------------------------------------------------

type Shared struct {
	prog      *ssa.Program
	comp      *compiler
	lookMu    sync.Mutex
	rtErrType types.Type
	trackFns  bool
	repoPath  string
}

func (s *Shared) lookup(t types.Type, pkg *types.Package, name string) *ssa.Function {
	s.lookMu.Lock()
	defer s.lookMu.Unlock()
	return s.prog.LookupMethod(t, pkg, name)
}

func (s *Shared) nativeMethod(t types.Type, name string) *Native {
	if t == s.rtErrType {
		switch name {
		case "Error":
			return &Native{name: "Error", f: func(w *W, fr *frame, a []Value) Value { return a[0] }}
		case "RuntimeError":
			return &Native{name: "RuntimeError", f: func(w *W, fr *frame, a []Value) Value { return nil }}
		}
	}
	return nil
}

// ---- work items -----------------------------------------------------------------------

// node is one decision of a path; paths share prefixes.
type node struct {
	parent *node
	val    uint64
	depth  int
}

type item struct {
	n     *node
	model []uint64
}

// inputRec describes one nondeterministic value requested by the harness.
type inputRec struct {
	Name  string
	Kind  string // s string, i int, b bool, c choice
	terms []*Term
	conc  Value
}

type obsRec struct {
	name string
	v    Value
}

type Violation struct {
	Harness string
	Kind    string // assert, panic, limit, exit, deadlock
	Msg     string
	Stack   string
	Inputs  []ReplayVal
	Steps   int64
	N       int
}

type ReplayVal struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"` // strings: hex encoded bytes; others decimal
}

type Sample struct {
	Inputs  []ReplayVal
	Obs     [][2]string // name, hex
	Outcome string
}

// Result of exploring one harness.
type Result struct {
	Harness     string
	Pkg         string
	Paths       int64
	Outcomes    map[string]int64
	Violations  []*Violation
	Unsupported map[string]int64
	Frontier    int
	Complete    bool
	Wall        time.Duration
	Stats       solverStats
	Steps       int64
	Decisions   int64
	Reached     map[string]int64
	Samples     []Sample
	Funcs       map[string]int64
	Logged      []loggedQuery
	MaxDecs     int
	Validated   int
	Mismatch    []string
	Inputs      int
	CrossOther  string
}

type Explorer struct {
	sh       *Shared
	fn       *ssa.Function
	name     string
	params   map[string]int
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64
	res      *Result
	vioKeys  map[string]*Violation
	rng      *rand.Rand
	nsamples int
	onVio    func(v *Violation)
	maxVio   int
	seed     int64
}

func (e *Explorer) push(it item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop(wid int) (item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) || e.maxPaths > 0 && e.res.Paths >= e.maxPaths {
			e.stop = true
			e.cond.Broadcast()
			return item{}, false
		}
		if n := len(e.queue); n > 0 {
			k := n - 1
			if wid%2 == 1 { // half of the workers pick random frontier items
				k = e.rng.Intn(n)
			}
			it := e.queue[k]
			e.queue[k] = e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.stop = true
			e.cond.Broadcast()
			return item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// ---- worker -------------------------------------------------------------------------------

type W struct {
	sh   *Shared
	ex   *Explorer
	id   int
	prog *ssa.Program
	db   *termDB
	sol  *Solver

	globals  map[*ssa.Global]*Value
	pkgState map[*ssa.Package]int
	inInit   bool
	methods  map[methodKey]Value
	identMem map[[2]types.Type]bool
	fnSeen   map[*ssa.Function]int64

	// memory journal
	journaling bool
	journal    []jent

	// path state
	pc      []*Term // constraints not handled by byte domains
	byVar   map[int32][]int
	unary   map[int32][]*Term
	dom     map[int32]*[4]uint64
	multi   map[int32]bool
	varW    []uint8
	nvars   int
	model   []uint64
	prefix  []uint64
	pos     int
	node    *node
	steps   int64
	inputs  []inputRec
	obs     []obsRec
	reached []string
	incompl string

	stepLimit int64
	maxDepth  int
	curFrame  *frame
	mapOrder  bool

	// goroutines
	gors        []*gor
	gcur        *gor
	race        *raceState // nil: data races are not looked for
	gabort      any
	killed      chan struct{}
	preempt     bool
	preemptions int
	maxPreempt  int
	vnow        int

	env *envState
	rng *rand.Rand
}

func newW(sh *Shared, ex *Explorer, id int) *W {
	w := &W{sh: sh, ex: ex, id: id, prog: sh.prog}
	w.db = newTermDB()
	w.sol = newSolver(w.db)
	w.globals = map[*ssa.Global]*Value{}
	w.pkgState = map[*ssa.Package]int{}
	w.methods = map[methodKey]Value{}
	w.identMem = map[[2]types.Type]bool{}
	w.fnSeen = map[*ssa.Function]int64{}
	w.killed = make(chan struct{})
	w.rng = rand.New(rand.NewSource(ex.seed*1000 + int64(id)))
	return w
}

// global returns the address of g, initialising its package on first use.
func (w *W) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && skipInit(g.Pkg.Pkg.Path()) {
		if g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") {
			if f := w.prog.ImportedPackage("io/fs"); f != nil && f.Var(g.Name()) != nil {
				w.ensureInit(f)
				p := new(Value)
				*p = *w.global(f.Var(g.Name()))
				w.globals[g] = p
				return p
			}
		}
		if g.String() == "net/http.DefaultClient" {
			p, c := new(Value), new(Value)
			*c = zero(g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem())
			*p = c
			w.globals[g] = p
			return p
		}
		if !zeroIsFine[g.String()] && initialised(g) {
			unsupported("%s of a package that is not initialised", g)
		}
	}
	w.ensureInit(g.Pkg)
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	return p
}

// zeroIsFine holds globals of packages that are not initialised whose zero value does (nil is UTC).
var zeroIsFine = map[string]bool{"time.Local": true, "net/http.NoBody": true, "os.Stdout": true, "os.Stderr": true, "os.Stdin": true, "os.Args": true, "time.utcLoc": true}

// initialised tells whether the package initialiser gives g a value.
func initialised(g *ssa.Global) bool {
	fn := g.Pkg.Func("init")
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				return true
			}
		}
	}
	return false
}

// ensureInit runs the initialiser of the package (not of its imports: they are initialised on use).
func (w *W) ensureInit(p *ssa.Package) {
	if p == nil || w.pkgState[p] != 0 {
		return
	}
	w.pkgState[p] = 1
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok && !skipInit(p.Pkg.Path()) {
				c := new(Value)
				*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
				w.globals[g] = c
			}
		}
	}
	if skipInit(p.Pkg.Path()) {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	oi, oj, os, ol, oc := w.inInit, w.journaling, w.steps, w.stepLimit, w.curFrame
	w.inInit, w.journaling, w.stepLimit = true, false, 1<<60
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && pe.kind == "unsupported" {
					w.initFailed(p, pe.msg)
					return
				}
				if gp, ok := r.(goPanic); ok {
					w.initFailed(p, "panic "+showV(gp.v)+" "+gp.stack)
					return
				}
				panic(r)
			}
		}()
		w.runInit(fn)
	}()
	w.inInit, w.journaling, w.steps, w.stepLimit, w.curFrame = oi, oj, os, ol, oc
}

func (w *W) initFailed(p *ssa.Package, msg string) {
	if debugMode {
		fmt.Fprintf(os.Stderr, "init of %s incomplete: %s\n", p.Pkg.Path(), msg)
	}
}

// runInit executes a package initialiser, skipping the initialisers of imported packages.
func (w *W) runInit(fn *ssa.Function) {
	cf := w.sh.comp.get(fn)
	fr := &frame{w: w, cf: cf}
	fr.env = make([]Value, cf.nslots)
	fr.run(0)
}

var debugMode = os.Getenv("SYMX_DEBUG") != ""

// ---- path condition -------------------------------------------------------------------------

func (w *W) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OpAnd {
		w.addPC(c.x)
		w.addPC(c.y)
		return
	}
	if c.op == OpNot && c.x.op == OpOr {
		w.addPC(w.db.Not(c.x.x))
		w.addPC(w.db.Not(c.x.y))
		return
	}
	if len(c.vars) > 1 {
		if s := w.simp(c); s != c {
			w.addPC(s)
			return
		}
	}
	if len(c.vars) == 1 && w.varW[c.vars[0]] == 8 {
		v := c.vars[0]
		d := w.db.byteDomain(c)
		cur := w.dom[v]
		if cur == nil {
			cur = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
		n := *cur
		for i := range n {
			n[i] &= d[i]
		}
		if cur == nil || n != *cur {
			w.dom[v] = &n
			w.unary[v] = append(w.unary[v], c)
		}
		return
	}
	i := len(w.pc)
	w.pc = append(w.pc, c)
	for _, v := range c.vars {
		w.byVar[v] = append(w.byVar[v], i)
		w.multi[v] = true
	}
}

// simp simplifies the boolean structure of c under the current byte domains.
func (w *W) simp(c *Term) *Term {
	switch c.op {
	case OpConst:
		return c
	case OpNot:
		if x := w.simp(c.x); x != c.x {
			return w.db.Not(x)
		}
		return c
	case OpAnd, OpOr:
		x := w.simp(c.x)
		if x.isConst() && (x.c == 1) == (c.op == OpOr) {
			return x
		}
		y := w.simp(c.y)
		if x == c.x && y == c.y {
			return c
		}
		if c.op == OpAnd {
			return w.db.And(x, y)
		}
		return w.db.Or(x, y)
	}
	if len(c.vars) == 1 && c.w == 0 && w.varW[c.vars[0]] == 8 {
		d := w.db.byteDomain(c)
		cur := w.domOf(c.vars[0])
		some, all := false, true
		for i := range cur {
			if cur[i]&d[i] != 0 {
				some = true
			}
			if cur[i]&^d[i] != 0 {
				all = false
			}
		}
		if !some {
			return w.db.ff
		}
		if all {
			return w.db.tt
		}
	}
	return c
}

// local searches a model of c near the current one; it only ever answers "satisfiable".
func (w *W) local(c *Term) map[int32]uint64 {
	var alts [][]*Term
	ok := true
	var conj func(t *Term, out *[]*Term)
	conj = func(t *Term, out *[]*Term) {
		if t.op == OpAnd {
			conj(t.x, out)
			conj(t.y, out)
			return
		}
		if t.op == OpNot && t.x.op == OpOr {
			conj(w.db.Not(t.x.x), out)
			conj(w.db.Not(t.x.y), out)
			return
		}
		*out = append(*out, t)
	}
	var disj func(t *Term)
	disj = func(t *Term) {
		if len(alts) > 24 {
			return
		}
		if t.op == OpOr {
			disj(t.x)
			disj(t.y)
			return
		}
		if t.op == OpNot && t.x.op == OpAnd {
			disj(w.db.Not(t.x.x))
			disj(w.db.Not(t.x.y))
			return
		}
		var cs []*Term
		conj(t, &cs)
		alts = append(alts, cs)
	}
	disj(c)
	if !ok {
		return nil
	}
	tries := 0
	for _, cs := range alts {
		doms := map[int32][4]uint64{}
		var vars []int32
		good := true
		for _, l := range cs {
			if len(l.vars) != 1 || w.varW[l.vars[0]] != 8 {
				good = false
				break
			}
			v := l.vars[0]
			cur, have := doms[v]
			if !have {
				cur = w.domOf(v)
				vars = append(vars, v)
			}
			d := w.db.byteDomain(l)
			for i := range cur {
				cur[i] &= d[i]
			}
			if domCount(&cur) == 0 {
				good = false
				break
			}
			doms[v] = cur
		}
		if !good {
			continue
		}
		m := append([]uint64{}, w.model...)
		pick := func(v int32, k int) (uint64, bool) { // k-th value of the domain
			d := doms[v]
			for x := 0; x < 256; x++ {
				if domHas(&d, uint64(x)) {
					if k == 0 {
						return uint64(x), true
					}
					k--
				}
			}
			return 0, false
		}
		for _, v := range vars {
			d := doms[v]
			if !domHas(&d, m[v]) {
				m[v], _ = pick(v, 0)
			}
		}
		check := func() bool {
			tries++
			w.db.newEval()
			for _, v := range vars {
				for _, ci := range w.byVar[v] {
					if w.db.ev(w.pc[ci], m) != 1 {
						return false
					}
				}
			}
			return true
		}
		found := check()
		for _, v := range vars {
			if found {
				break
			}
			old := m[v]
			for k := 0; k < 24 && tries < 80; k++ {
				x, ok := pick(v, k)
				if !ok {
					break
				}
				m[v] = x
				if check() {
					found = true
					break
				}
			}
			if !found {
				m[v] = old
			}
		}
		if found {
			r := map[int32]uint64{}
			for _, v := range vars {
				r[v] = m[v]
			}
			return r
		}
	}
	return nil
}

func (w *W) domOf(v int32) [4]uint64 {
	if d := w.dom[v]; d != nil {
		return *d
	}
	return [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
}

// slice collects all constraints connected with c.
func (w *W) slice(c *Term) []*Term {
	seenV := map[int32]bool{}
	seenC := map[int]bool{}
	var out []*Term
	work := append([]int32{}, c.vars...)
	for _, v := range work {
		seenV[v] = true
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		out = append(out, w.unary[v]...)
		for _, ci := range w.byVar[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			out = append(out, w.pc[ci])
			for _, v2 := range w.pc[ci].vars {
				if !seenV[v2] {
					seenV[v2] = true
					work = append(work, v2)
				}
			}
		}
	}
	return out
}

// feasible decides whether c is consistent with the path condition.
func (w *W) feasible(c *Term) (satRes, map[int32]uint64) {
	if c.isTrue() {
		return sat, nil
	}
	if c.isFalse() {
		return unsat, nil
	}
	if len(c.vars) == 1 && w.varW[c.vars[0]] == 8 {
		v := c.vars[0]
		d := w.db.byteDomain(c)
		cur := w.domOf(v)
		for i := range cur {
			cur[i] &= d[i]
		}
		if domCount(&cur) == 0 {
			w.sol.st.DomQueries++
			if w.sol.st.DomQueries%1009 == 0 {
				w.cross(append(w.slice(c), c), unsat)
			}
			return unsat, nil
		}
		if !w.multi[v] {
			w.sol.st.DomQueries++
			if w.sol.st.DomQueries%1009 == 0 {
				w.cross(append(w.slice(c), c), sat)
			}
			return sat, map[int32]uint64{v: uint64(domFirst(&cur))}
		}
	}
	if m := w.local(c); m != nil {
		w.sol.st.LocalSat++
		if w.sol.st.LocalSat%1009 == 0 {
			w.cross(append(w.slice(c), c), sat)
		}
		return sat, m
	}
	return w.sol.check(append(w.slice(c), c))
}

// cross confirms a verdict of the domain propagation with z3.
func (w *W) cross(cs []*Term, want satRes) {
	r, _ := w.sol.query(cs)
	w.sol.st.CrossChecks++
	if r != want && r != unknown {
		w.sol.st.CrossFails++
	}
}

func (w *W) evalBool(c *Term) bool {
	w.db.newEval()
	return w.db.ev(c, w.model) == 1
}

func (w *W) evalT(c *Term) uint64 {
	w.db.newEval()
	return w.db.ev(c, w.model)
}

func mergeModel(m []uint64, n int, upd map[int32]uint64) []uint64 {
	k := len(m)
	if n > k {
		k = n
	}
	r := make([]uint64, k)
	copy(r, m)
	for i, v := range upd {
		if int(i) < len(r) {
			r[i] = v
		}
	}
	return r
}

func (w *W) record(v uint64) {
	d := 0
	if w.node != nil {
		d = w.node.depth
	}
	w.node = &node{parent: w.node, val: v, depth: d + 1}
}

func (w *W) pushAlt(v uint64, model []uint64) {
	d := 0
	if w.node != nil {
		d = w.node.depth
	}
	w.ex.push(item{n: &node{parent: w.node, val: v, depth: d + 1}, model: model})
}

// forkT decides a symbolic condition; both outcomes are explored if feasible.
func (w *W) forkT(c *Term) bool {
	if c.op == OpConst {
		return c.c == 1
	}
	if w.inInit {
		unsupported("symbolic branch during initialisation")
	}
	// implied by the byte domain: no decision
	if len(c.vars) > 1 {
		if c = w.simp(c); c.isConst() {
			w.sol.st.DomQueries++
			return c.c == 1
		}
	}
	if len(c.vars) == 1 && w.varW[c.vars[0]] == 8 {
		v := c.vars[0]
		d := w.db.byteDomain(c)
		cur := w.domOf(v)
		some, all := false, true
		for i := range cur {
			if cur[i]&d[i] != 0 {
				some = true
			}
			if cur[i]&^d[i] != 0 {
				all = false
			}
		}
		if !some {
			w.sol.st.DomQueries++
			return false
		}
		if all {
			w.sol.st.DomQueries++
			return true
		}
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.record(d)
		b := d&1 == 1
		if d < 2 {
			if b {
				w.addPC(c)
			} else {
				w.addPC(w.db.Not(c))
			}
		}
		return b
	}
	v := w.evalBool(c)
	other := c
	if v {
		other = w.db.Not(c)
	}
	w.sol.st.ModelHits++
	r, m := w.feasible(other)
	vb, ob := uint64(0), uint64(1)
	if v {
		vb, ob = 1, 0
	}
	switch r {
	case sat:
		w.pushAlt(ob, mergeModel(w.model, w.nvars, m))
		w.record(vb)
	case unsat:
		w.record(2 + vb)
		return v
	default:
		w.incompl = "solver returned unknown on a branch"
		w.record(vb)
	}
	if v {
		w.addPC(c)
	} else {
		w.addPC(other2(w, c))
	}
	return v
}

func other2(w *W, c *Term) *Term { return w.db.Not(c) }

// choose makes an n-ary nondeterministic choice.
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.record(d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushAlt(uint64(i), w.model)
	}
	w.record(0)
	return 0
}

// concretize enumerates the values of t.
func (w *W) concretize(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	for n := 0; ; n++ {
		if n > 4096 {
			unsupported("too many values when making a symbolic value concrete")
		}
		var v uint64
		if w.pos < len(w.prefix) {
			v = w.prefix[w.pos]
			w.pos++
		} else {
			v = w.evalT(t)
		}
		w.record(v)
		if w.forkT(w.db.Eq(t, w.db.Const(t.w, v))) {
			return v
		}
	}
}

// assume restricts the path.
func (w *W) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
		return
	}
	if w.evalBool(c) {
		w.addPC(c)
		return
	}
	r, m := w.feasible(c)
	switch r {
	case unsat:
		panic(pathEnd{"assume", ""})
	case unknown:
		w.incompl = "solver returned unknown on an assumption"
		panic(pathEnd{"assume", "unknown"})
	}
	w.model = mergeModel(w.model, w.nvars, m)
	w.addPC(c)
}

func (w *W) assertT(c *Term, msg string) {
	if c.isTrue() {
		w.sol.st.AssertConst++
		return
	}
	if w.pos < len(w.prefix) {
		// discharged by the path this one was forked from
		w.addPC(c)
		if c.isFalse() {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if c.isFalse() {
		w.sol.st.AssertConst++
		w.violation("assert", msg, w.stackOf(w.curFrame), w.model)
		panic(pathEnd{"done", "violated"})
	}
	neg := w.db.Not(c)
	w.sol.st.Asserts++
	var r satRes
	var m map[int32]uint64
	if !w.evalBool(c) {
		r, m = sat, nil
		// still let the solver confirm it
	} else {
		r, m = w.sol.check(append(w.slice(neg), neg))
	}
	switch r {
	case sat:
		w.violation("assert", msg, w.stackOf(w.curFrame), mergeModel(w.model, w.nvars, m))
		w.assume(c)
	case unknown:
		w.incompl = "solver returned unknown on an assertion"
		w.addPC(c)
	default:
		w.addPC(c)
	}
}

func (w *W) newVar(width uint8) *Term {
	idx := w.nvars
	w.nvars++
	w.varW = append(w.varW, width)
	if len(w.model) < w.nvars {
		m := make([]uint64, w.nvars+8)
		copy(m, w.model)
		w.model = m
	}
	return w.db.Var(idx, width)
}

// constrainVar restricts a fresh variable; def is a value satisfying c.
func (w *W) constrainVar(v *Term, c *Term, def uint64) {
	if !w.evalBool(c) {
		m := append([]uint64{}, w.model...)
		m[v.c] = def
		w.model = m
	}
	w.addPC(c)
}

// ---- running paths ------------------------------------------------------------------------------

func (w *W) renderInputs(model []uint64) []ReplayVal {
	var r []ReplayVal
	for _, in := range w.inputs {
		v := ReplayVal{N: in.Name, K: in.Kind}
		switch in.Kind {
		case "s":
			b := make([]byte, len(in.terms))
			w.db.newEval()
			for i, t := range in.terms {
				b[i] = byte(w.db.ev(t, model))
			}
			v.V = fmt.Sprintf("%x", b)
		case "c":
			v.V = fmt.Sprint(in.conc)
		case "i":
			w.db.newEval()
			v.V = fmt.Sprint(int64(w.db.ev(in.terms[0], model)))
		case "b":
			w.db.newEval()
			v.V = fmt.Sprint(w.db.ev(in.terms[0], model))
		}
		r = append(r, v)
	}
	return r
}

func (w *W) renderStr(v Value, model []uint64) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		w.db.newEval()
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(w.db.ev(t, model))
		}
		return string(b)
	case uint64:
		return fmt.Sprint(int64(v))
	case bool:
		return fmt.Sprint(v)
	case *Term:
		w.db.newEval()
		x := w.db.ev(v, model)
		if v.w == 0 {
			return fmt.Sprint(x == 1)
		}
		return fmt.Sprint(sx(x, v.w))
	}
	return fmt.Sprintf("%v", v)
}

func (w *W) violation(kind, msg, stack string, model []uint64) {
	v := &Violation{Harness: w.ex.name, Kind: kind, Msg: msg, Stack: stack, Inputs: w.renderInputs(model), Steps: w.steps, N: 1}
	key := kind + "|" + msg
	if kind == "panic" {
		// the innermost repository frame identifies the site
		key = kind + "|" + siteOf(stack)
	}
	e := w.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	if old := e.vioKeys[key]; old != nil {
		old.N++
		if old.N <= 3 {
			e.res.Violations = append(e.res.Violations, v)
		}
		if old.N <= 6 && e.onVio != nil {
			e.onVio(v) // the first one might not be confirmed natively
		}
		return
	}
	if len(e.vioKeys) >= 400 {
		return
	}
	e.vioKeys[key] = v
	e.res.Violations = append(e.res.Violations, v)
	if e.onVio != nil {
		e.onVio(v)
	}
	if e.maxVio > 0 && len(e.res.Violations) >= e.maxVio {
		e.stop = true
	}
}

func siteOf(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "wiki2book/") && !strings.Contains(l, "zz_verif") {
			return l
		}
	}
	return stack
}

func (w *W) resetPath() {
	w.pc = w.pc[:0]
	w.byVar = map[int32][]int{}
	w.unary = map[int32][]*Term{}
	w.dom = map[int32]*[4]uint64{}
	w.multi = map[int32]bool{}
	w.varW = w.varW[:0]
	w.nvars = 0
	w.pos = 0
	w.node = nil
	w.steps = 0
	w.inputs = nil
	w.obs = nil
	w.reached = nil
	w.incompl = ""
	w.mapOrder = false
	w.preempt = false
	w.preemptions = 0
	w.maxPreempt = 1000
	w.stepLimit = int64(w.ex.params["_steps"])
	w.maxDepth = 400
	w.curFrame = nil
	w.env = newEnvState()
	w.race = nil
	w.resetSched()
}

func (w *W) runPath(it item) {
	w.resetPath()
	w.prefix = w.prefix[:0]
	if it.n != nil {
		w.prefix = make([]uint64, it.n.depth)
		for n := it.n; n != nil; n = n.parent {
			w.prefix[n.depth-1] = n.val
		}
	}
	w.model = it.model
	w.journaling = true
	outcome := "ok"
	msg := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch p := r.(type) {
			case pathEnd:
				outcome, msg = p.kind, p.msg
			case goPanic:
				outcome = "panic"
				msg = w.panicMsg(p) + "\n" + p.stack
			default:
				// engine error: inconclusive
				outcome = "unsupported"
				msg = fmt.Sprintf("engine error: %v\n%s", r, w.stackOf(w.curFrame))
				if debugMode {
					msg += string(debug.Stack())
				}
			}
		}()
		w.callFn(nil, w.ex.fn, nil, nil)
	}()
	w.killAll()
	if w.race != nil && (outcome == "ok" || outcome == "done" || outcome == "exit") {
		for _, f := range w.race.found {
			w.violation("race", f[0], f[1], w.model)
		}
	}
	switch outcome {
	case "panic", "deadlock", "limit":
		m := msg
		st := ""
		if i := strings.IndexByte(m, '\n'); i >= 0 {
			m, st = m[:i], m[i+1:]
		}
		w.violation(outcome, m, st, w.model)
	case "exit":
		if !w.env.allowExit {
			m, st := msg, ""
			if i := strings.IndexByte(m, '\n'); i >= 0 {
				m, st = m[:i], m[i+1:]
			}
			w.violation("exit", m, st, w.model)
		}
	}
	e := w.ex
	e.mu.Lock()
	r := e.res
	r.Paths++
	r.Outcomes[outcome]++
	r.Steps += w.steps
	if w.incompl != "" {
		r.Unsupported[w.incompl]++
	}
	if outcome == "unsupported" {
		k := msg
		if i := strings.IndexByte(k, '\n'); i >= 0 && !debugMode {
			k = k[:i]
		}
		r.Unsupported[k]++
	}
	if w.node != nil && w.node.depth > r.MaxDecs {
		r.MaxDecs = w.node.depth
	}
	if w.node != nil {
		r.Decisions += int64(w.node.depth - len(w.prefix))
	}
	if outcome == "ok" || outcome == "done" {
		for _, x := range w.reached {
			r.Reached[x]++
		}
	}
	if len(w.inputs) > r.Inputs {
		r.Inputs = len(w.inputs)
	}
	if outcome == "ok" {
		e.nsamples++
		keep := -1
		const maxS = 60
		if len(r.Samples) < maxS {
			r.Samples = append(r.Samples, Sample{})
			keep = len(r.Samples) - 1
		} else if k := e.rng.Intn(e.nsamples); k < maxS {
			keep = k
		}
		if keep >= 0 {
			s := Sample{Inputs: w.renderInputs(w.model), Outcome: outcome}
			for _, o := range w.obs {
				s.Obs = append(s.Obs, [2]string{o.name, fmt.Sprintf("%x", w.renderStr(o.v, w.model))})
			}
			r.Samples[keep] = s
		}
	}
	e.mu.Unlock()
	w.rollback()
	w.journaling = false
	if len(w.db.tab) > 3000000 {
		w.resetTerms()
	}
}

// resetTerms drops the term table (memory bound); package state holds no terms.
func (w *W) resetTerms() {
	st := w.sol.st
	lg := w.sol.logged
	w.sol.stop()
	w.db = newTermDB()
	w.sol = newSolver(w.db)
	w.sol.st = st
	w.sol.logged = lg
}

func (w *W) panicMsg(p goPanic) string {
	itf, ok := p.v.(Iface)
	if !ok {
		return showV(p.v)
	}
	if s, ok := itf.v.(string); ok {
		return s
	}
	// errors: call Error()
	r := ""
	func() {
		defer func() {
			if recover() != nil {
				r = "panic of type " + itf.t.String()
			}
		}()
		if v, ok := w.errString(itf); ok {
			r = w.renderStr(v, w.model)
		} else {
			r = showV(itf)
		}
	}()
	return strings.ReplaceAll(r, "\n", " ")
}

func (w *W) errString(itf Iface) (Value, bool) {
	if itf.t == w.sh.rtErrType {
		return itf.v, true
	}
	if itf.t == nil {
		return nil, false
	}
	for _, name := range []string{"Error", "String"} {
		w.sh.lookMu.Lock()
		sel := w.prog.MethodSets.MethodSet(itf.t).Lookup(nil, name)
		var fn *ssa.Function
		if sel != nil {
			sg := sel.Obj().(*types.Func).Type().(*types.Signature)
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 && basicKind(sg.Results().At(0).Type()) == types.String {
				fn = w.prog.MethodValue(sel)
			}
		}
		w.sh.lookMu.Unlock()
		if fn != nil {
			return w.callFn(w.curFrame, fn, []Value{itf.v}, nil), true
		}
	}
	return nil, false
}

func explore(sh *Shared, fn *ssa.Function, name string, params map[string]int, budget time.Duration, maxPaths int64, workers int, seed int64, onVio func(*Violation, func())) *Result {
	e := &Explorer{sh: sh, fn: fn, name: name, params: params, maxPaths: maxPaths, vioKeys: map[string]*Violation{}, seed: seed}
	e.cond = sync.NewCond(&e.mu)
	e.rng = rand.New(rand.NewSource(seed))
	e.res = &Result{Harness: name, Outcomes: map[string]int64{}, Unsupported: map[string]int64{}, Reached: map[string]int64{}, Funcs: map[string]int64{}}
	stopFn := func() {
		e.mu.Lock()
		e.stop = true
		e.mu.Unlock()
		e.cond.Broadcast()
	}
	if onVio != nil {
		e.onVio = func(v *Violation) { onVio(v, stopFn) }
	}
	t0 := time.Now()
	e.deadline = t0.Add(budget)
	e.queue = []item{{}}
	go func() { // wake up waiting workers at the deadline
		time.Sleep(budget)
		e.cond.Broadcast()
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newW(sh, e, i)
			for {
				it, ok := e.pop(i)
				if !ok {
					break
				}
				w.runPath(it)
				e.done()
			}
			w.sol.stop()
			e.mu.Lock()
			e.res.Stats.add(&w.sol.st)
			for f, n := range w.fnSeen {
				e.res.Funcs[f.String()] += n
			}
			e.res.Logged = append(e.res.Logged, w.sol.logged...)
			e.mu.Unlock()
		}(i)
	}
	wg.Wait()
	e.res.Wall = time.Since(t0)
	e.res.Frontier = len(e.queue)
	e.res.Complete = len(e.queue) == 0 && len(e.res.Unsupported) == 0 && e.res.Outcomes["limit"] == 0
	return e.res
}

func repoFuncs(m map[string]int64) []string {
	var r []string
	for f := range m {
		if (strings.Contains(f, "wiki2book/") || strings.HasPrefix(f, "wiki2book.")) && !strings.Contains(f, "verifrt") && !strings.Contains(f, "Verif") && !strings.Contains(f, ".verif") {
			r = append(r, f)
		}
	}
	sort.Strings(r)
	return r
}

var _ = token.NoPos
