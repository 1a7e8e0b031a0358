package main

// Symbolic regular expressions: the compiled program of the real regexp/syntax package is evaluated
// over byte terms with leftmost-first (Perl) priorities.

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type reObj struct {
	expr string
	re   *regexp.Regexp
	prog *syntax.Prog
	cls  []func(c byte) bool // per instruction
	ok   bool                // symbolic matching supported
	why  string
}

var reCache sync.Map

func getRe(expr string) (*reObj, error) {
	if r, ok := reCache.Load(expr); ok {
		return r.(*reObj), nil
	}
	re, err := regexp.Compile(expr)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	o := &reObj{expr: expr, re: re, prog: prog, ok: true}
	o.cls = make([]func(byte) bool, len(prog.Inst))
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			var set [256]bool
			for c := 0; c < 0x80; c++ {
				set[c] = in.MatchRune(rune(c))
			}
			// bytes >= 0x80 stand for (parts of) non-ASCII runes: the class must treat them alike
			hi := in.MatchRune(0xe4) && in.MatchRune(0x20ac) && in.MatchRune(0x1f600) && in.MatchRune(0xfffd)
			lo := !in.MatchRune(0xe4) && !in.MatchRune(0x20ac) && !in.MatchRune(0x1f600) && !in.MatchRune(0xfffd)
			if !hi && !lo {
				o.ok, o.why = false, "class mixes non-ASCII runes"
			}
			for c := 0x80; c < 0x100; c++ {
				set[c] = hi
			}
			o.cls[i] = func(c byte) bool { return set[c] }
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				o.ok, o.why = false, "line or word assertions"
			}
		}
	}
	reCache.Store(expr, o)
	return o, nil
}

type reCand struct {
	pc   int // consuming instruction, or -1 for match
	caps [][2]int
}

// cands is the ordered epsilon closure of pc at position pos of an input of length n.
func (o *reObj) cands(pc, pos, n int) []reCand {
	var out []reCand
	seen := make([]bool, len(o.prog.Inst))
	var visit func(pc int, caps [][2]int)
	visit = func(pc int, caps [][2]int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &o.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(int(in.Out), caps)
			visit(int(in.Arg), caps)
		case syntax.InstNop:
			visit(int(in.Out), caps)
		case syntax.InstCapture:
			nc := append(append([][2]int{}, caps...), [2]int{int(in.Arg), pos})
			visit(int(in.Out), nc)
		case syntax.InstEmptyWidth:
			f := syntax.EmptyOp(in.Arg)
			if f&syntax.EmptyBeginText != 0 && pos != 0 {
				return
			}
			if f&syntax.EmptyEndText != 0 && pos != n {
				return
			}
			visit(int(in.Out), caps)
		case syntax.InstMatch:
			out = append(out, reCand{-1, caps})
		case syntax.InstFail:
		default:
			out = append(out, reCand{pc, caps})
		}
	}
	visit(pc, nil)
	return out
}

type reRun struct {
	w    *W
	o    *reObj
	s    Value
	n    int
	memo map[[2]int]*Term
}

// m is the condition under which a match exists from instruction pc at pos.
func (r *reRun) m(pc, pos int) *Term {
	k := [2]int{pc, pos}
	if t, ok := r.memo[k]; ok {
		return t
	}
	t := r.w.db.ff
	cs := r.o.cands(pc, pos, r.n)
	for _, c := range cs {
		if c.pc < 0 {
			t = r.w.db.tt
			break
		}
	}
	if !t.isTrue() && pos < r.n {
		b := r.w.strByte(r.s, pos)
		for i := len(cs) - 1; i >= 0; i-- {
			c := cs[i]
			x := r.w.inSet(b, r.o.cls[c.pc])
			if x.isFalse() {
				continue
			}
			t = r.w.db.Or(r.w.db.And(x, r.m(int(r.o.prog.Inst[c.pc].Out), pos+1)), t)
		}
	}
	r.memo[k] = t
	return t
}

// find returns the capture positions of the leftmost-first match at or after from.
func (r *reRun) find(from int, ncap int) []int {
	w := r.w
	start := -1
	for i := from; i <= r.n; i++ {
		if w.forkT(r.m(r.o.prog.Start, i)) {
			start = i
			break
		}
	}
	if start < 0 {
		return nil
	}
	caps := make([]int, r.o.prog.NumCap)
	for i := range caps {
		caps[i] = -1
	}
	pc, pos := r.o.prog.Start, start
	caps[0] = start
	for {
		cs := r.o.cands(pc, pos, r.n)
		var got *reCand
		for i := range cs {
			c := &cs[i]
			if c.pc < 0 {
				got = c
				break
			}
			if pos >= r.n {
				continue
			}
			cond := w.db.And(w.inSet(w.strByte(r.s, pos), r.o.cls[c.pc]), r.m(int(r.o.prog.Inst[c.pc].Out), pos+1))
			if w.forkT(cond) {
				got = c
				break
			}
		}
		if got == nil {
			unsupported("regexp: no continuation")
		}
		for _, c := range got.caps {
			caps[c[0]] = c[1]
		}
		if got.pc < 0 {
			caps[1] = pos
			return caps
		}
		pc = int(r.o.prog.Inst[got.pc].Out)
		pos++
	}
}

func (w *W) reRun(o *reObj, s Value) *reRun {
	if !o.ok {
		unsupported("regexp %q on symbolic input: %s", o.expr, o.why)
	}
	return &reRun{w: w, o: o, s: s, n: strLen(s), memo: map[[2]int]*Term{}}
}

func (w *W) reAll(o *reObj, s Value, n int) [][]int {
	if c, ok := s.(string); ok {
		return o.re.FindAllStringSubmatchIndex(c, n)
	}
	r := w.reRun(o, s)
	if n < 0 {
		n = r.n + 1
	}
	var out [][]int
	for pos, prev := 0, -1; len(out) < n && pos <= r.n; {
		m := r.find(pos, 0)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			pos++
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			out = append(out, m)
		}
	}
	return out
}

func (w *W) reFind(o *reObj, s Value) []int {
	if c, ok := s.(string); ok {
		return o.re.FindStringSubmatchIndex(c)
	}
	return w.reRun(o, s).find(0, 0)
}

func (w *W) reMatchT(o *reObj, s Value) *Term {
	if c, ok := s.(string); ok {
		return w.db.Bool(o.re.MatchString(c))
	}
	r := w.reRun(o, s)
	t := w.db.ff
	for i := r.n; i >= 0; i-- {
		t = w.db.Or(r.m(o.prog.Start, i), t)
	}
	return t
}

func (w *W) reReplace(o *reObj, s Value, repl func(m []int) Value) Value {
	r := w.reRun(o, s)
	var parts []Value
	last, pos := 0, 0
	for pos <= r.n {
		a := r.find(pos, 0)
		if a == nil {
			break
		}
		parts = append(parts, strSlice(s, last, a[0]))
		if a[1] > last || a[0] == 0 {
			parts = append(parts, repl(a))
		}
		last = a[1]
		if pos+1 > a[1] {
			pos++
		} else {
			pos = a[1]
		}
	}
	if len(parts) == 0 {
		return s
	}
	parts = append(parts, strSlice(s, last, r.n))
	return w.concatAll("", parts)
}

func reOf(v Value) *reObj {
	p, ok := v.(*Value)
	if !ok || p == nil {
		unsupported("nil regexp")
	}
	o, ok := (*p).(NativeObj)
	if !ok {
		unsupported("uninitialised regexp")
	}
	return o.v.(*reObj)
}

func subs(s Value, m []int) Slice {
	if m == nil {
		return nil
	}
	r := make(Slice, len(m)/2)
	for i := range r {
		if m[2*i] >= 0 {
			r[i] = strSlice(s, m[2*i], m[2*i+1])
		} else {
			r[i] = ""
		}
	}
	return r
}

func init() {
	comp := func(w *W, a Value) (*Value, error) {
		e, ok := a.(string)
		if !ok {
			unsupported("symbolic regular expression")
		}
		o, err := getRe(e)
		if err != nil {
			return nil, err
		}
		var cell Value = NativeObj{o}
		return &cell, nil
	}
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p, err := comp(w, a[0])
		if err != nil {
			w.curFrame = fr
			panic(w.goPanicStr("regexp: Compile: " + err.Error()))
		}
		return p
	}, "regexp.MustCompile")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p, err := comp(w, a[0])
		if err != nil {
			w.curFrame = fr
			return Tuple{(*Value)(nil), w.newErr(err.Error())}
		}
		return Tuple{p, nilErr}
	}, "regexp.Compile")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p, err := comp(w, a[0])
		if err != nil {
			w.curFrame = fr
			return Tuple{false, w.newErr(err.Error())}
		}
		return Tuple{tv(w.reMatchT(reOf(p), a[1])), nilErr}
	}, "regexp.MatchString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return regexp.QuoteMeta(s)
		}
		return fallThru{}
	}, "regexp.QuoteMeta")
	const R = "(*regexp.Regexp)."
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.reMatchT(reOf(a[0]), a[1]))
	}, R+"MatchString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.reMatchT(reOf(a[0]), w.bytesToStr(a[1].(Slice))))
	}, R+"Match")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return reOf(a[0]).expr
	}, R+"String")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return subs(a[1], w.reFind(reOf(a[0]), a[1]))
	}, R+"FindStringSubmatch")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := w.reFind(reOf(a[0]), a[1])
		if m == nil {
			return ""
		}
		return strSlice(a[1], m[0], m[1])
	}, R+"FindString")
	idx := func(m []int) Slice {
		if m == nil {
			return nil
		}
		r := make(Slice, len(m))
		for i := range m {
			r[i] = U(m[i])
		}
		return r
	}
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := w.reFind(reOf(a[0]), a[1])
		if m == nil {
			return Slice(nil)
		}
		return idx(m[:2])
	}, R+"FindStringIndex")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return idx(w.reFind(reOf(a[0]), a[1]))
	}, R+"FindStringSubmatchIndex")
	all := func(f func(s Value, m []int) Value) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			ms := w.reAll(reOf(a[0]), a[1], int(w.concInt(a[2], 64)))
			var out Slice
			for _, m := range ms {
				out = append(out, f(a[1], m))
			}
			return out
		}
	}
	reg(all(func(s Value, m []int) Value { return subs(s, m) }), R+"FindAllStringSubmatch")
	reg(all(func(s Value, m []int) Value { return strSlice(s, m[0], m[1]) }), R+"FindAllString")
	reg(all(func(s Value, m []int) Value { return idx(m[:2]) }), R+"FindAllStringIndex")
	reg(all(func(s Value, m []int) Value { return idx(m) }), R+"FindAllStringSubmatchIndex")
	repl := func(lit bool) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			o := reOf(a[0])
			src, ok1 := a[1].(string)
			rp, ok2 := a[2].(string)
			if ok1 && ok2 {
				if lit {
					return o.re.ReplaceAllLiteralString(src, rp)
				}
				return o.re.ReplaceAllString(src, rp)
			}
			if !lit {
				if ok2 && strings.Contains(rp, "$") {
					return w.reReplace(o, a[1], func(m []int) Value { return w.reExpand(o, rp, a[1], m) })
				}
				if !ok2 && w.forkT(w.containsT(a[2], "$")) {
					unsupported("regexp replacement template with $")
				}
			}
			return w.reReplace(o, a[1], func(m []int) Value { return a[2] })
		}
	}
	reg(repl(false), R+"ReplaceAllString")
	reg(repl(true), R+"ReplaceAllLiteralString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.reReplace(reOf(a[0]), a[1], func(m []int) Value {
			return w.call(fr, a[2], []Value{strSlice(a[1], m[0], m[1])})
		})
	}, R+"ReplaceAllStringFunc")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		o := reOf(a[0])
		n := int(w.concInt(a[2], 64))
		if n == 0 {
			return Slice(nil)
		}
		ms := w.reAll(o, a[1], n)
		var out Slice
		beg, end := 0, 0
		for _, m := range ms {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, strSlice(a[1], beg, end))
			}
			beg = m[1]
		}
		if end != strLen(a[1]) {
			out = append(out, strSlice(a[1], beg, strLen(a[1])))
		}
		return out
	}, R+"Split")
}
