package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func bitsOf(f float64) uint64 { return math.Float64bits(f) }
func f64(c uint64) float64    { return math.Float64frombits(c) }

// ---- compilation of SSA functions -------------------------------------------------

type opnd struct {
	slot int32 // >=0: register
	g    *ssa.Global
	v    Value
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	o   []opnd
	w   uint8 // operand width for integer operations
	sg  bool  // signed
	w2  uint8
	sg2 bool
	t   types.Type
	pos token.Pos
	// IndexAddr whose result is only loaded from
	onlyLoads bool
}

type cblock struct {
	phis  []cinstr
	ins   []cinstr
	succs []int
	idx   int
	// pure: the block contains only side-effect free total instructions and ends in a jump (used for merging)
	pure int8
}

type cfunc struct {
	fn       *ssa.Function
	nslots   int
	params   []int32
	free     []int32
	blocks   []*cblock
	hasDefer bool
	intr     intrinsic
	named    []int32
	pkgInit  bool
	raceKind atomic.Int32
}

type compiler struct {
	mu   sync.RWMutex
	m    map[*ssa.Function]*cfunc
	prog *ssa.Program
}

func (c *compiler) get(fn *ssa.Function) *cfunc {
	c.mu.RLock()
	cf := c.m[fn]
	c.mu.RUnlock()
	if cf != nil {
		return cf
	}
	cf = c.compile(fn)
	c.mu.Lock()
	if o := c.m[fn]; o != nil {
		cf = o
	} else {
		c.m[fn] = cf
	}
	c.mu.Unlock()
	return cf
}

func constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		if _, ok := t.Underlying().(*types.Basic); ok && basicKind(t) != types.UntypedNil {
			return zero(t)
		}
		return zero(t)
	}
	if w, _ := intInfo(t); w > 0 {
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & maskW(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & maskW(w)
	}
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(k.Value)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		if b.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		return complex128(0)
	case b.Kind() == types.UnsafePointer:
		return (*Value)(nil)
	}
	panic("constVal " + k.String())
}

func (c *compiler) compile(fn *ssa.Function) *cfunc {
	cf := &cfunc{fn: fn, intr: lookupIntrinsic(fn), pkgInit: fn.Name() == "init" && fn.Synthetic != ""}
	slots := map[ssa.Value]int32{}
	add := func(v ssa.Value) int32 {
		s := int32(len(slots))
		slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		cf.params = append(cf.params, add(p))
	}
	for _, p := range fn.FreeVars {
		cf.free = append(cf.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		cf.hasDefer = true
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, v: constVal(v)}
		case *ssa.Global:
			return opnd{slot: -1, g: v}
		case *ssa.Function:
			return opnd{slot: -1, v: v}
		case *ssa.Builtin:
			return opnd{slot: -1, v: v}
		}
		s, ok := slots[v]
		if !ok {
			panic("no slot for " + v.String())
		}
		return opnd{slot: s}
	}
	for i, b := range fn.Blocks {
		cb := &cblock{idx: i}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
				ci.t = v.Type()
			}
			var rands [10]*ssa.Value
			for _, p := range in.Operands(rands[:0]) {
				if *p == nil {
					ci.o = append(ci.o, opnd{slot: -1})
				} else {
					ci.o = append(ci.o, mkop(*p))
				}
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				ci.w, ci.sg = intInfo(in.X.Type())
				ci.w2, ci.sg2 = intInfo(in.Y.Type())
			case *ssa.UnOp:
				ci.w, ci.sg = intInfo(in.X.Type())
			case *ssa.Convert:
				ci.w, ci.sg = intInfo(in.X.Type())
				ci.w2, ci.sg2 = intInfo(in.Type())
			case *ssa.IndexAddr:
				ci.w, ci.sg = intInfo(in.Index.Type())
				ci.onlyLoads = true
				for _, r := range *in.Referrers() {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, dbg := r.(*ssa.DebugRef); !dbg {
							ci.onlyLoads = false
						}
					}
				}
			case *ssa.Index:
				ci.w, ci.sg = intInfo(in.Index.Type())
			case *ssa.Lookup:
				ci.w, ci.sg = intInfo(in.Index.Type())
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.ins = append(cb.ins, ci)
			}
		}
		cf.blocks = append(cf.blocks, cb)
	}
	cf.nslots = len(slots)
	return cf
}

// ---- frames ---------------------------------------------------------------------------

type deferred struct {
	fn   Value
	args []Value
}

type frame struct {
	w         *W
	cf        *cfunc
	env       []Value
	caller    *frame
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	pan       any
	depth     int
	cur       *cinstr
	recovered bool
}

// goPanic is a panic of the executed program.
type goPanic struct {
	v     Value // Iface
	stack string
}

// pathEnd aborts the current path.
type pathEnd struct {
	kind string // assume, limit, unsupported, exit, done, deadlock, killed
	msg  string
}

func unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (fr *frame) get(o *opnd) Value {
	if o.slot >= 0 {
		return fr.env[o.slot]
	}
	if o.g != nil {
		return fr.w.global(o.g)
	}
	return o.v
}

func (w *W) stackOf(fr *frame) string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 14; f = f.caller {
		p := ""
		if f.cur != nil && f.cur.pos.IsValid() {
			ps := w.prog.Fset.Position(f.cur.pos)
			fn := ps.Filename
			if i := strings.LastIndex(fn, "/src/"); i >= 0 {
				fn = fn[i+5:]
			}
			p = fmt.Sprintf(" %s:%d", fn, ps.Line)
		}
		fmt.Fprintf(&sb, "%s%s\n", f.cf.fn.String(), p)
		n++
	}
	return sb.String()
}

func (w *W) runtimeErr(msg string) goPanic {
	return goPanic{v: Iface{t: w.sh.rtErrType, v: "runtime error: " + msg}, stack: w.stackOf(w.curFrame)}
}

func (w *W) goPanicStr(msg string) goPanic { return w.runtimeErr(msg) }

// call invokes a function value.
func (w *W) call(fr *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			panic(w.runtimeErr("invalid memory address or nil pointer dereference (nil func)"))
		}
		return w.callFn(fr, f, args, nil)
	case *Closure:
		if f == nil {
			panic(w.runtimeErr("invalid memory address or nil pointer dereference (nil func)"))
		}
		return w.callFn(fr, f.fn, args, f.env)
	case *Native:
		return f.f(w, fr, args)
	case *ssa.Builtin:
		return w.callBuiltin(fr, f, args, nil)
	}
	panic(w.runtimeErr("invalid memory address or nil pointer dereference (nil func)"))
}

func (w *W) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	cf := w.sh.comp.get(fn)
	if cf.intr != nil {
		r := cf.intr(w, caller, fn, args)
		if _, ft := r.(fallThru); !ft {
			return r
		}
	}
	if len(cf.blocks) == 0 {
		if fn.Name() == "init" && fn.Pkg != nil {
			return nil
		}
		unsupported("no body: %s", fn.String())
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > w.maxDepth {
		panic(pathEnd{"limit", "call depth limit in " + fn.String()})
	}
	if w.sh.trackFns {
		w.fnSeen[fn]++
	}
	fr := &frame{w: w, cf: cf, caller: caller, depth: depth}
	fr.env = make([]Value, cf.nslots)
	for i, p := range cf.params {
		fr.env[p] = args[i]
	}
	for i, p := range cf.free {
		fr.env[p] = env[i]
	}
	if !cf.hasDefer {
		fr.run(0)
		return fr.result
	}
	fr.runWithDefers()
	return fr.result
}

func (fr *frame) runWithDefers() {
	func() {
		normal := false
		defer func() {
			if normal {
				return
			}
			r := recover()
			gp, ok := r.(goPanic)
			if !ok {
				panic(r) // path end or engine error
			}
			fr.panicking = true
			fr.pan = gp
		}()
		fr.run(0)
		normal = true
	}()
	if fr.panicking {
		fr.runDefers()
		if fr.panicking {
			panic(fr.pan)
		}
		// recovered
		if fr.cf.fn.Recover != nil {
			fr.run(fr.cf.fn.Recover.Index)
		} else {
			fr.result = zero(fr.cf.fn.Signature.Results())
			if fr.cf.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				gp, isgp := r.(goPanic)
				if !isgp {
					panic(r)
				}
				fr.panicking = true
				fr.pan = gp
			}()
			fr.w.call(fr, d.fn, d.args)
			ok = true
		}()
	}
}

func (fr *frame) run(b int) {
	w := fr.w
	cf := fr.cf
	block := cf.blocks[b]
	for {
		if len(block.phis) > 0 {
			fr.doPhis(block)
		}
		for i := range block.ins {
			ci := &block.ins[i]
			w.steps++
			if w.steps > w.stepLimit {
				panic(pathEnd{"limit", "step limit in " + cf.fn.String() + "\n" + w.stackOf(fr)})
			}
			fr.cur = ci
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.get(&ci.o[0])
				var t bool
				switch c := c.(type) {
				case bool:
					t = c
				case *Term:
					if nb, ok := fr.tryMerge(block, c); ok {
						fr.prev = block.idx
						if nb == nil { // finished
							return
						}
						block = nb
						goto nextNoPhi
					}
					w.curFrame = fr
					t = w.forkT(c)
				}
				fr.prev = block.idx
				if t {
					block = cf.blocks[block.succs[0]]
				} else {
					block = cf.blocks[block.succs[1]]
				}
				goto next
			case *ssa.Jump:
				fr.prev = block.idx
				block = cf.blocks[block.succs[0]]
				goto next
			case *ssa.Return:
				switch len(ci.o) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.o[0])
				default:
					r := make(Tuple, len(ci.o))
					for i := range ci.o {
						r[i] = fr.get(&ci.o[i])
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				w.curFrame = fr
				panic(goPanic{v: fr.get(&ci.o[0]), stack: w.stackOf(fr)})
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panicking {
					// a deferred function panicked during normal exit
					p := fr.pan
					fr.panicking = false
					panic(p)
				}
			case *ssa.Call:
				r := fr.doCall(ci, &in.Call)
				fr.env[ci.dst] = r
			default:
				fr.exec(ci)
			}
		}
		panic("fell off block in " + cf.fn.String())
	nextNoPhi:
		{
			// phis already assigned by tryMerge: execute the body directly
			nb := fr.runBody(block)
			if nb == nil {
				return
			}
			block = nb
		}
	next:
	}
}

// runBody executes a block whose phis were already assigned. Returns the next block or nil on return.
func (fr *frame) runBody(block *cblock) *cblock {
	w := fr.w
	cf := fr.cf
	for i := range block.ins {
		ci := &block.ins[i]
		w.steps++
		fr.cur = ci
		switch in := ci.in.(type) {
		case *ssa.If:
			c := fr.get(&ci.o[0])
			var t bool
			switch c := c.(type) {
			case bool:
				t = c
			case *Term:
				if nb, ok := fr.tryMerge(block, c); ok {
					fr.prev = block.idx
					return fr.runBody(nb)
				}
				w.curFrame = fr
				t = w.forkT(c)
			}
			fr.prev = block.idx
			if t {
				return cf.blocks[block.succs[0]]
			}
			return cf.blocks[block.succs[1]]
		case *ssa.Jump:
			fr.prev = block.idx
			return cf.blocks[block.succs[0]]
		case *ssa.Return:
			switch len(ci.o) {
			case 0:
			case 1:
				fr.result = fr.get(&ci.o[0])
			default:
				r := make(Tuple, len(ci.o))
				for i := range ci.o {
					r[i] = fr.get(&ci.o[i])
				}
				fr.result = r
			}
			return nil
		case *ssa.Panic:
			w.curFrame = fr
			panic(goPanic{v: fr.get(&ci.o[0]), stack: w.stackOf(fr)})
		case *ssa.RunDefers:
			fr.runDefers()
			if fr.panicking {
				p := fr.pan
				fr.panicking = false
				panic(p)
			}
		case *ssa.Call:
			fr.env[ci.dst] = fr.doCall(ci, &in.Call)
		default:
			fr.exec(ci)
		}
	}
	panic("fell off block")
}

func (fr *frame) doPhis(block *cblock) {
	pi := -1
	preds := fr.cf.fn.Blocks[block.idx].Preds
	for i, p := range preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	if len(block.phis) == 1 {
		ci := &block.phis[0]
		fr.env[ci.dst] = fr.get(&ci.o[pi])
		return
	}
	var tmp [16]Value
	vals := tmp[:0]
	for i := range block.phis {
		vals = append(vals, fr.get(&block.phis[i].o[pi]))
	}
	for i := range block.phis {
		fr.env[block.phis[i].dst] = vals[i]
	}
}

// tryMerge handles the short-circuit pattern: block ends in If(c) with one successor being a small
// side-effect free block M that jumps (or falls) to the other successor J, where J starts with phis.
// The phi values become ite terms instead of forking the path.
func (fr *frame) tryMerge(block *cblock, c *Term) (*cblock, bool) {
	cf := fr.cf
	for side := 0; side < 2; side++ {
		m := cf.blocks[block.succs[side]]
		j := cf.blocks[block.succs[1-side]]
		if len(m.phis) != 0 || len(m.succs) != 1 || m.succs[0] != j.idx || len(cf.fn.Blocks[m.idx].Preds) != 1 {
			continue
		}
		if m.pure == 0 {
			m.pure = pureBlock(m)
		}
		if m.pure < 0 || len(j.phis) == 0 {
			continue
		}
		if !fr.tryPure(m) {
			continue
		}
		// phi merge
		preds := cf.fn.Blocks[j.idx].Preds
		pb, pm := -1, -1
		for i, p := range preds {
			if p.Index == block.idx {
				pb = i
			}
			if p.Index == m.idx {
				pm = i
			}
		}
		if pb < 0 || pm < 0 {
			continue
		}
		vals := make([]Value, len(j.phis))
		ok := true
		for i := range j.phis {
			vb := fr.get(&j.phis[i].o[pb])
			vm := fr.get(&j.phis[i].o[pm])
			v, good := fr.w.iteV(c, vm, vb, side == 0, j.phis[i].t)
			if !good {
				ok = false
				break
			}
			vals[i] = v
		}
		if !ok {
			continue
		}
		for i := range j.phis {
			fr.env[j.phis[i].dst] = vals[i]
		}
		return j, true
	}
	return nil, false
}

// iteV builds ite(c, a, b) (swapped if !pos) for scalar values.
func (w *W) iteV(c *Term, a, b Value, pos bool, t types.Type) (Value, bool) {
	if !pos {
		a, b = b, a
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if bt.Info()&types.IsBoolean != 0 {
		return tv(w.db.Ite(c, w.asTerm(a, 0), w.asTerm(b, 0))), true
	}
	return nil, false
}

func pureBlock(m *cblock) int8 {
	if len(m.ins) > 8 {
		return -1
	}
	for i := range m.ins {
		switch in := m.ins[i].in.(type) {
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				return -1
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return -1
			}
		case *ssa.Convert, *ssa.Jump, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Field, *ssa.ChangeType:
		default:
			return -1
		}
	}
	return 1
}

// tryPure executes a pure block; it reports false (without side effects other than registers of
// that block) if something could panic or fork.
func (fr *frame) tryPure(m *cblock) (ok bool) {
	for i := range m.ins {
		ci := &m.ins[i]
		switch in := ci.in.(type) {
		case *ssa.Jump:
			return true
		case *ssa.UnOp:
			if in.Op == token.MUL {
				p, isp := fr.get(&ci.o[0]).(*Value)
				if !isp || p == nil {
					return false
				}
			}
		case *ssa.FieldAddr:
			p, isp := fr.get(&ci.o[0]).(*Value)
			if !isp || p == nil {
				return false
			}
		case *ssa.IndexAddr:
			iv, isc := fr.get(&ci.o[1]).(uint64)
			if !isc {
				return false
			}
			switch x := fr.get(&ci.o[0]).(type) {
			case Slice:
				if iv >= uint64(len(x)) {
					return false
				}
			case *Value:
				if x == nil {
					return false
				}
				a, isa := (*x).(Array)
				if !isa || iv >= uint64(len(a)) {
					return false
				}
			default:
				return false
			}
		case *ssa.Index, *ssa.Lookup:
			iv, isc := fr.get(&ci.o[1]).(uint64)
			if !isc {
				return false
			}
			switch x := fr.get(&ci.o[0]).(type) {
			case string:
				if iv >= uint64(len(x)) {
					return false
				}
			case *SymStr:
				if iv >= uint64(len(x.b)) {
					return false
				}
			default:
				return false
			}
		case *ssa.Convert:
			if ci.w == 0 || ci.w2 == 0 {
				return false
			}
		case *ssa.BinOp:
			switch in.Op {
			case token.SHL, token.SHR:
				return false
			case token.EQL, token.NEQ:
				switch fr.get(&ci.o[0]).(type) {
				case Iface, Struct, Array:
					return false
				}
			}
		}
		fr.exec(ci)
	}
	return true
}

func (fr *frame) doCall(ci *cinstr, c *ssa.CallCommon) Value {
	w := fr.w
	if w.inInit && fr.cf.pkgInit {
		return fr.initCall(ci, c)
	}
	return fr.doCall1(ci, c)
}

// initCall executes a call of a package initialiser; what cannot be executed yields the zero value.
func (fr *frame) initCall(ci *cinstr, c *ssa.CallCommon) (r Value) {
	w := fr.w
	if f := c.StaticCallee(); f != nil && f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil {
		return nil // imported packages are initialised on use
	}
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case pathEnd:
				if e.kind != "unsupported" {
					panic(x)
				}
				w.initFailed(fr.cf.fn.Pkg, e.msg)
			case goPanic:
				w.initFailed(fr.cf.fn.Pkg, "panic "+showV(e.v)+" "+e.stack)
			default:
				panic(x)
			}
			res := c.Signature().Results()
			if res.Len() > 0 {
				r = zero(res)
			}
			w.curFrame = fr
		}
	}()
	return fr.doCall1(ci, c)
}

func (fr *frame) doCall1(ci *cinstr, c *ssa.CallCommon) Value {
	w := fr.w
	fv, args := fr.prepCall(ci, c)
	w.curFrame = fr
	if b, ok := fv.(*ssa.Builtin); ok {
		return w.callBuiltin(fr, b, args, c)
	}
	r := w.call(fr, fv, args)
	w.curFrame = fr
	return r
}

// prepCall evaluates function value and arguments. Operand order for ssa.CallCommon: Value, Args...
func (fr *frame) prepCall(ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	w := fr.w
	v := fr.get(&ci.o[0])
	if c.IsInvoke() {
		itf := v.(Iface)
		if itf.t == nil {
			w.curFrame = fr
			panic(w.runtimeErr("invalid memory address or nil pointer dereference (method " + c.Method.Name() + " on nil interface)"))
		}
		fn := w.lookupMethod(itf.t, c.Method)
		args := make([]Value, len(ci.o))
		args[0] = itf.v
		for i := 1; i < len(ci.o); i++ {
			args[i] = fr.get(&ci.o[i])
		}
		return fn, args
	}
	args := make([]Value, len(ci.o)-1)
	for i := 1; i < len(ci.o); i++ {
		args[i-1] = fr.get(&ci.o[i])
	}
	return v, args
}

func (w *W) lookupMethod(t types.Type, m *types.Func) Value {
	key := methodKey{t, m}
	if f, ok := w.methods[key]; ok {
		return f
	}
	var r Value
	if nt := w.sh.nativeMethod(t, m.Name()); nt != nil {
		r = nt
	} else {
		fn := w.sh.lookup(t, m.Pkg(), m.Name())
		if fn == nil {
			unsupported("method %s of %s not found", m.Name(), t)
		}
		r = fn
	}
	w.methods[key] = r
	return r
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (fr *frame) exec(ci *cinstr) {
	w := fr.w
	w.curFrame = fr
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.env[ci.dst] = fr.unop(ci, in)
	case *ssa.BinOp:
		fr.env[ci.dst] = w.binop(in.Op, ci, fr.get(&ci.o[0]), fr.get(&ci.o[1]), in.X.Type())
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = fr.get(&ci.o[0])
	case *ssa.ChangeType:
		fr.env[ci.dst] = fr.get(&ci.o[0])
	case *ssa.Convert:
		fr.env[ci.dst] = w.convert(ci, in.X.Type(), in.Type(), fr.get(&ci.o[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = w.convert(ci, in.X.Type(), in.Type(), fr.get(&ci.o[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.o[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			panic(w.runtimeErr("slice to array conversion"))
		}
		if s == nil {
			fr.env[ci.dst] = (*Value)(nil)
			return
		}
		var v Value = Array(s[:n:n])
		fr.env[ci.dst] = &v
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: in.X.Type(), v: fr.get(&ci.o[0])}
	case *ssa.Extract:
		fr.env[ci.dst] = fr.get(&ci.o[0]).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.env[ci.dst] = fr.sliceOp(ci, in)
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[ci.dst] = p
	case *ssa.Store:
		p, ok := fr.get(&ci.o[0]).(*Value)
		if !ok {
			unsupported("store through %T", fr.get(&ci.o[0]))
		}
		if p == nil {
			panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
		}
		if w.raceOn(fr) {
			w.touch(fr, p, true)
		}
		w.store(p, fr.get(&ci.o[1]))
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.o[0]).(*Value)
		if !ok {
			unsupported("field of %T", fr.get(&ci.o[0]))
		}
		if p == nil {
			panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
		}
		s, ok := (*p).(Struct)
		if !ok {
			unsupported("field access to opaque object %T in %s", *p, fr.cf.fn)
		}
		fr.env[ci.dst] = &s[in.Field]
	case *ssa.Field:
		fr.env[ci.dst] = fr.get(&ci.o[0]).(Struct)[in.Field]
	case *ssa.IndexAddr:
		iv := fr.get(&ci.o[1])
		if it, ok := iv.(*Term); ok && ci.onlyLoads {
			if e := w.symElem(fr.get(&ci.o[0]), it, ci, in.X.Type()); e != nil {
				fr.env[ci.dst] = e
				return
			}
		}
		switch x := fr.get(&ci.o[0]).(type) {
		case Slice:
			i := w.index(iv, ci, len(x))
			fr.env[ci.dst] = &x[i]
		case *Value:
			if x == nil {
				panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
			}
			a := (*x).(Array)
			i := w.index(iv, ci, len(a))
			fr.env[ci.dst] = &a[i]
		default:
			unsupported("IndexAddr of %T", x)
		}
	case *ssa.Index:
		fr.env[ci.dst] = fr.indexVal(ci, fr.get(&ci.o[0]), fr.get(&ci.o[1]))
	case *ssa.Lookup:
		x := fr.get(&ci.o[0])
		switch x := x.(type) {
		case *Map:
			k := fr.get(&ci.o[1])
			w.touchMap(fr, x, false)
			e := w.mapFind(x, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				mt := in.X.Type().Underlying().(*types.Map)
				v = zero(mt.Elem())
			}
			if in.CommaOk {
				fr.env[ci.dst] = Tuple{v, e != nil}
			} else {
				fr.env[ci.dst] = v
			}
		default:
			fr.env[ci.dst] = fr.indexVal(ci, x, fr.get(&ci.o[1]))
		}
	case *ssa.MapUpdate:
		w.touchMap(fr, asMap(fr.get(&ci.o[0])), true)
		w.mapSet(asMap(fr.get(&ci.o[0])), fr.get(&ci.o[1]), copyVal(fr.get(&ci.o[2])))
	case *ssa.Range:
		if m, ok := fr.get(&ci.o[0]).(*Map); ok {
			w.touchMap(fr, m, false)
		}
		fr.env[ci.dst] = w.rangeIter(fr.get(&ci.o[0]), in.X.Type())
	case *ssa.Next:
		fr.env[ci.dst] = fr.get(&ci.o[0]).(*iter).next(w, in)
	case *ssa.TypeAssert:
		fr.env[ci.dst] = w.typeAssert(in, fr.get(&ci.o[0]).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.o)-1)
		for i := 1; i < len(ci.o); i++ {
			env[i-1] = fr.get(&ci.o[i])
		}
		fr.env[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeMap:
		fr.env[ci.dst] = newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		n := w.concInt(fr.get(&ci.o[0]), 64)
		c := w.concInt(fr.get(&ci.o[1]), 64)
		if n < 0 || n > 1<<24 || c < n || c > 1<<24 {
			panic(w.runtimeErr(fmt.Sprintf("makeslice: len out of range %d", n)))
		}
		s := make(Slice, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		fillZero(s, et)
		fr.env[ci.dst] = s[:n]
	case *ssa.MakeChan:
		fr.env[ci.dst] = &Chan{cap: int(w.concInt(fr.get(&ci.o[0]), 64))}
	case *ssa.Send:
		w.chanSend(fr.get(&ci.o[0]).(*Chan), fr.get(&ci.o[1]))
	case *ssa.Select:
		fr.env[ci.dst] = w.selectOp(fr, ci, in)
	case *ssa.Go:
		fv, args := fr.prepCall(ci, &in.Call)
		w.spawn(fv, args)
	case *ssa.Defer:
		fv, args := fr.prepCall(ci, &in.Call)
		if b, ok := fv.(*ssa.Builtin); ok {
			c := &in.Call
			fr.defers = append(fr.defers, deferred{&Native{name: b.Name(), f: func(w *W, fr *frame, a []Value) Value { return w.callBuiltin(fr, b, a, c) }}, args})
		} else {
			fr.defers = append(fr.defers, deferred{fv, args})
		}
	default:
		unsupported("instruction %T", ci.in)
	}
}

func fillZero(s Slice, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		s[0] = z
		for i := 1; i < len(s); i++ {
			s[i] = zero(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func asMap(v Value) *Map {
	m, _ := v.(*Map)
	return m
}

func (fr *frame) indexVal(ci *cinstr, x, iv Value) Value {
	w := fr.w
	switch x := x.(type) {
	case string, *SymStr:
		if it, ok := iv.(*Term); ok {
			if e, ok := w.symElem(x, it, ci, nil).(SymElem); ok {
				return e.v
			}
		}
		i := w.index(iv, ci, strLen(x))
		return w.strByteV(x, i)
	case Array:
		i := w.index(iv, ci, len(x))
		return x[i]
	}
	unsupported("index of %T", x)
	return nil
}

// index returns a concrete in-range index or panics like Go would.
func (w *W) index(iv Value, ci *cinstr, n int) int {
	switch i := iv.(type) {
	case uint64:
		s := int64(i)
		if ci.sg {
			s = sx(i, ci.w)
		}
		if s < 0 || s >= int64(n) {
			panic(w.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", s, n)))
		}
		return int(s)
	case *Term:
		in := w.db.Cmp(OpUlt, w.db.Resize(i, 64, ci.sg), w.db.Const(64, uint64(n)))
		if !w.forkT(in) {
			panic(w.runtimeErr(fmt.Sprintf("index out of range [symbolic] with length %d", n)))
		}
		return int(w.concretize(i))
	}
	panic("index")
}

// concInt makes an integer concrete (forking over its values if it is symbolic).
func (w *W) concInt(v Value, width uint8) int64 {
	switch v := v.(type) {
	case uint64:
		return sx(v, width)
	case *Term:
		return sx(w.concretize(v), v.w)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (fr *frame) sliceOp(ci *cinstr, in *ssa.Slice) Value {
	w := fr.w
	x := fr.get(&ci.o[0])
	lo, hi, max := int64(-1), int64(-1), int64(-1)
	k := 1
	if in.Low != nil {
		wd, _ := intInfo(in.Low.Type())
		lo = w.concInt(fr.get(&ci.o[k]), wd)
		if lo < 0 {
			lo = -2
		}
	}
	k++
	if in.High != nil {
		wd, _ := intInfo(in.High.Type())
		hi = w.concInt(fr.get(&ci.o[k]), wd)
		if hi < 0 {
			hi = -2
		}
	}
	k++
	if in.Max != nil {
		wd, _ := intInfo(in.Max.Type())
		max = w.concInt(fr.get(&ci.o[k]), wd)
		if max < 0 {
			max = -2
		}
	}
	if lo == -1 {
		lo = 0
	}
	var length, capacity int64
	switch x := x.(type) {
	case string, *SymStr:
		length = int64(strLen(x))
		capacity = length
	case Slice:
		length, capacity = int64(len(x)), int64(cap(x))
	case *Value:
		if x == nil {
			panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
		}
		a := (*x).(Array)
		length, capacity = int64(len(a)), int64(len(a))
	default:
		unsupported("slice of %T", x)
	}
	if hi == -1 {
		hi = length
	}
	if max == -1 {
		max = capacity
	}
	if max < 0 || max > capacity || hi < 0 || hi > max || lo < 0 || lo > hi {
		panic(w.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, capacity)))
	}
	switch x := x.(type) {
	case string, *SymStr:
		return strSlice(x, int(lo), int(hi))
	case Slice:
		return x[lo:hi:max]
	case *Value:
		return Slice((*x).(Array))[lo:hi:max]
	}
	return nil
}

func (fr *frame) unop(ci *cinstr, in *ssa.UnOp) Value {
	w := fr.w
	x := fr.get(&ci.o[0])
	switch in.Op {
	case token.MUL: // load
		p, ok := x.(*Value)
		if !ok {
			if e, ok := x.(ElemPtr); ok {
				return w.loadElem(e)
			}
			if e, ok := x.(SymElem); ok {
				return e.v
			}
			unsupported("load through %T", x)
		}
		if p == nil {
			panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
		}
		if w.raceOn(fr) {
			w.touch(fr, p, false)
		}
		return copyVal(*p)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return tv(w.db.Not(b))
		}
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			return (-v) & maskW(ci.w)
		case float64:
			return -v
		case *Term:
			if v.w == wF64 {
				return tv(w.db.F(OpFMul, v, w.db.Const(wF64, bitsOf(-1))))
			}
			return tv(w.db.Bin(OpSub, w.db.Const(v.w, 0), v))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			return (^v) & maskW(ci.w)
		case *Term:
			return tv(w.db.Bin(OpBXor, v, w.db.Const(v.w, maskW(v.w))))
		}
	case token.ARROW:
		v, ok := w.chanRecv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	unsupported("unop %s on %T", in.Op, x)
	return nil
}

func (w *W) loadElem(e ElemPtr) Value {
	if e.sl != nil && len(e.sl) > 0 {
		return e.sl[0]
	}
	if e.str != nil && strLen(e.str) > 0 {
		return w.strByteV(e.str, 0)
	}
	panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
}

func (w *W) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if len(v) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				w.store(&d[i], v[i])
			}
			return
		}
		w.setCell(p, copyVal(v))
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			if len(v) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				w.store(&d[i], v[i])
			}
			return
		}
		w.setCell(p, copyVal(v))
		return
	}
	w.setCell(p, v)
}

func (w *W) setCell(p *Value, v Value) {
	if w.journaling {
		w.journal = append(w.journal, jent{p: p, old: *p})
	}
	*p = v
}

type jent struct {
	p   *Value
	old Value
	f   func()
}

func (w *W) undo(f func()) {
	if w.journaling {
		w.journal = append(w.journal, jent{f: f})
	}
}

func (w *W) rollback() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		j := &w.journal[i]
		if j.f != nil {
			j.f()
		} else {
			*j.p = j.old
		}
	}
	w.journal = w.journal[:0]
}

// identical is a cached types.Identical.
func (w *W) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := [2]types.Type{a, b}
	if r, ok := w.identMem[k]; ok {
		return r
	}
	r := types.Identical(a, b)
	w.identMem[k] = r
	return r
}

func (w *W) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	var v Value
	ok := false
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && w.implements(x.t, it) {
			v, ok = x, true
		}
	} else if x.t != nil && w.identical(x.t, in.AssertedType) {
		v, ok = copyVal(x.v), true
	}
	if !ok {
		if !in.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			panic(goPanic{v: Iface{t: w.sh.rtErrType, v: fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType)}, stack: w.stackOf(w.curFrame)})
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (w *W) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := w.identMem[k]; ok {
		return r
	}
	if t == w.sh.rtErrType { // runtime error value
		r := true
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			if n != "Error" && n != "RuntimeError" {
				r = false
			}
		}
		return r
	}
	r := types.Implements(t, it)
	w.identMem[k] = r
	return r
}

// ---- iteration ------------------------------------------------------------------------

type iter struct {
	str  Value
	pos  int
	m    *Map
	ents []*mapEnt
	i    int
}

func (w *W) rangeIter(x Value, t types.Type) *iter {
	switch x := x.(type) {
	case string, *SymStr:
		return &iter{str: x}
	case *Map:
		it := &iter{m: x}
		if x != nil {
			for _, e := range x.ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
		}
		if w.mapOrder && len(it.ents) > 1 && !w.inInit {
			// nondeterministic order: choose a permutation
			rest := it.ents
			var perm []*mapEnt
			for len(rest) > 1 {
				k := w.choose(len(rest))
				perm = append(perm, rest[k])
				nr := append([]*mapEnt{}, rest[:k]...)
				rest = append(nr, rest[k+1:]...)
			}
			it.ents = append(perm, rest...)
		}
		return it
	}
	panic(fmt.Sprintf("range over %T", x))
}

func (it *iter) next(w *W, in *ssa.Next) Value {
	if in.IsString {
		if it.pos >= strLen(it.str) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, n := w.decodeRune(it.str, p)
		it.pos += n
		return Tuple{true, uint64(p), r}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Tuple{true, e.k, copyVal(e.v)}
	}
	tt := in.Type().(*types.Tuple)
	return Tuple{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// decodeRune decodes the rune of s at byte p (forking if needed).
func (w *W) decodeRune(s Value, p int) (Value, int) {
	b0 := w.strByte(s, p)
	if b0.op != OpConst {
		if w.forkT(w.db.Cmp(OpUlt, b0, w.db.Const(8, 0x80))) {
			return tv(w.db.Zext(b0, 32)), 1
		}
		w.concretize(b0)
	}
	// concrete bytes
	var buf [4]byte
	n := 0
	for n < 4 && p+n < strLen(s) {
		b := w.strByte(s, p+n)
		var c byte
		if b.op == OpConst {
			c = byte(b.c)
		} else {
			c = byte(w.concretize(b))
		}
		buf[n] = c
		n++
		if n == 1 && c < 0x80 {
			return uint64(c), 1
		}
		if r, ok := fullRune(buf[:n]); ok {
			return uint64(uint32(r.r)), r.n
		}
	}
	r := decodeConc(buf[:n])
	return uint64(uint32(r.r)), r.n
}

// SymElem is the address of a table element selected by a symbolic index (loads only).
type SymElem struct{ v Value }

// symElem selects from a table of concrete integers by a symbolic index, without forking over the
// index values. It returns nil if x is not such a table.
func (w *W) symElem(x Value, it *Term, ci *cinstr, xt types.Type) Value {
	var vals []uint64
	width := uint8(8)
	isBool := false
	elems := func(s []Value, et types.Type) bool {
		width, _ = intInfo(et)
		if width == 0 {
			if basicKind(et) != types.Bool {
				return false
			}
			isBool = true
		}
		for _, e := range s {
			switch v := e.(type) {
			case uint64:
				vals = append(vals, v)
			case bool:
				if v {
					vals = append(vals, 1)
				} else {
					vals = append(vals, 0)
				}
			default:
				return false
			}
		}
		return true
	}
	switch x := x.(type) {
	case string:
		if len(x) > 256 {
			return nil
		}
		for i := 0; i < len(x); i++ {
			vals = append(vals, uint64(x[i]))
		}
	case Slice:
		if len(x) > 256 {
			return nil
		}
		if !elems(x, xt.Underlying().(*types.Slice).Elem()) {
			return nil
		}
	case *Value:
		if x == nil {
			return nil
		}
		a, ok := (*x).(Array)
		if !ok || len(a) > 256 {
			return nil
		}
		if !elems(a, xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()) {
			return nil
		}
	default:
		return nil
	}
	if len(vals) < 2 {
		return nil
	}
	idx := w.db.Resize(it, 64, ci.sg)
	if !w.forkT(w.db.Cmp(OpUlt, idx, w.db.Const(64, uint64(len(vals))))) {
		panic(w.runtimeErr(fmt.Sprintf("index out of range [symbolic] with length %d", len(vals))))
	}
	if it.w < 64 && uint64(len(vals)) <= 1<<it.w {
		idx = it
	}
	if isBool {
		t := w.tableTerm(vals, 8, idx)
		return SymElem{tv(w.db.Eq(t, w.db.Const(8, 1)))}
	}
	return SymElem{tv(w.tableTerm(vals, width, idx))}
}
