package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// cmpT is -1, 0 or 1.
func (w *W) cmpT(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return U(strings.Compare(a, b))
		}
	}
	db := w.db
	lt, eq := w.strLtT(x, y, false), w.strEqT(x, y)
	return tv(db.Ite(eq, db.Const(64, 0), db.Ite(lt, db.Const(64, ^uint64(0)), db.Const(64, 1))))
}

// wrapVerbs lists the operands of the %w verbs.
func wrapVerbs(format string, args Slice) Slice {
	var out Slice
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i < len(format) && format[i] == '%' {
			continue
		}
		if i < len(format) && format[i] == 'w' && ai < len(args) {
			if it := args[ai].(Iface); it.t != nil {
				out = append(out, it)
			}
		}
		ai++
	}
	return out
}

// sprint joins operands like fmt.Sprint or (ln) fmt.Sprintln.
func (w *W) sprint(sl Slice, ln bool) Value {
	isStr := func(it Iface) bool { return it.t != nil && basicKind(it.t) == types.String }
	var parts []Value
	for i, x := range sl {
		it := x.(Iface)
		if i > 0 && (ln || !isStr(it) && !isStr(sl[i-1].(Iface))) {
			parts = append(parts, " ")
		}
		parts = append(parts, w.fmtArg('v', false, it))
	}
	if ln {
		parts = append(parts, "\n")
	}
	return w.concatAll("", parts)
}

func (w *W) writeTo(fr *frame, dst Value, s Value) Value {
	itf := dst.(Iface)
	if itf.t == nil {
		panic(w.runtimeErr("invalid memory address or nil pointer dereference"))
	}
	return w.call(fr, w.writeMethod(itf), []Value{itf.v, w.strToBytes(s)})
}

// reExpand is the text of a replacement template.
func (w *W) reExpand(o *reObj, tpl string, src Value, m []int) Value {
	var parts []Value
	for tpl != "" {
		before, after, ok := strings.Cut(tpl, "$")
		if !ok {
			break
		}
		parts = append(parts, before)
		tpl = after
		if strings.HasPrefix(tpl, "$") {
			parts = append(parts, "$")
			tpl = tpl[1:]
			continue
		}
		name, rest, ok := reName(tpl)
		if !ok {
			parts = append(parts, "$")
			continue
		}
		tpl = rest
		k := -1
		if n, err := strconv.Atoi(name); err == nil {
			k = n
		} else {
			k = o.re.SubexpIndex(name)
		}
		if k >= 0 && 2*k+1 < len(m) && m[2*k] >= 0 {
			parts = append(parts, strSlice(src, m[2*k], m[2*k+1]))
		}
	}
	parts = append(parts, tpl)
	return w.concatAll("", parts)
}

var reNameRe = regexp.MustCompile(`^(?:\{(\w+)\}|(\w+))`)

func reName(s string) (name, rest string, ok bool) {
	m := reNameRe.FindStringSubmatch(s)
	if m == nil {
		return "", s, false
	}
	return m[1] + m[2], s[len(m[0]):], true
}

// deepEq is reflect.DeepEqual of two values of the same type.
func (w *W) deepEq(t types.Type, x, y Value, depth int) *Term {
	db := w.db
	if depth > 50 {
		unsupported("reflect.DeepEqual of deeply nested values")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return db.Bool(a.t == nil && b.t == nil)
		}
		if !w.identical(a.t, b.t) {
			return db.ff
		}
		return w.deepEq(a.t, a.v, b.v, depth+1)
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b || a == nil || b == nil {
			return db.Bool(a == b)
		}
		return w.deepEq(u.Elem(), *a, *b, depth+1)
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := db.tt
		for i := range a {
			r = db.And(r, w.deepEq(u.Field(i).Type(), a[i], b[i], depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Slice, *types.Array:
		var a, b Slice
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			a, b, et = x.(Slice), y.(Slice), s.Elem()
			if (a == nil) != (b == nil) {
				return db.ff
			}
		} else {
			a, b, et = Slice(x.(Array)), Slice(y.(Array)), u.(*types.Array).Elem()
		}
		if len(a) != len(b) {
			return db.ff
		}
		r := db.tt
		for i := range a {
			r = db.And(r, w.deepEq(et, a[i], b[i], depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Map:
		a, b := asMap(x), asMap(y)
		if a == b || a == nil || b == nil {
			return db.Bool(a == b)
		}
		if a.live != b.live {
			return db.ff
		}
		r := db.tt
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			f := w.mapFind(b, e.k)
			if f == nil {
				return db.ff
			}
			r = db.And(r, w.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		return db.Bool(isNilV(x) && isNilV(y))
	}
	return w.eqV(t, x, y)
}

func init() {
	// ---- comparison ------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.cmpT(a[0], a[1]) }, "strings.Compare", "internal/bytealg.CompareString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.cmpT(w.bytesToStr(a[0].(Slice)), w.bytesToStr(a[1].(Slice)))
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		t := fn.Params[0].Type()
		if basicKind(t) == types.String {
			return w.cmpT(a[0], a[1])
		}
		return fallThru{}
	}, "cmp.Compare")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		c := w.asTerm(a[1], 8)
		n := 0
		for _, b := range a[0].(Slice) {
			if w.forkT(w.db.Eq(w.asTerm(b, 8), c)) {
				n++
			}
		}
		return U(n)
	}, "internal/bytealg.Count")
	// slices.overlaps compares addresses of elements
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) == 0 || len(y) == 0 {
			return false
		}
		ad := func(v *Value) uintptr { return uintptr(unsafe.Pointer(v)) }
		return ad(&x[0]) <= ad(&y[len(y)-1]) && ad(&y[0]) <= ad(&x[len(x)-1])
	}, "slices.overlaps")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		i, j := a[0].(Iface), a[1].(Iface)
		if i.t == nil || j.t == nil {
			return i.t == nil && j.t == nil
		}
		if !w.identical(i.t, j.t) {
			return false
		}
		return tv(w.deepEq(i.t, i.v, j.v, 0))
	}, "reflect.DeepEqual")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		m := asMap(i.v)
		if m == nil {
			return i
		}
		n := &Map{idx: map[any]int{}, kt: m.kt}
		for _, e := range m.ents {
			if !e.dead {
				w.mapSet(n, e.k, e.v)
			}
		}
		return Iface{t: i.t, v: n}
	}, "maps.clone")

	// ---- fmt -------------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		sl, _ := a[1].(Slice)
		w.curFrame = fr
		msg := w.sprintf(a[0], sl)
		if errs := wrapVerbs(S(a[0]), sl); len(errs) > 0 {
			return w.callFn(fr, w.prog.ImportedPackage("wiki2book/verifrt").Func("newWrapped"), []Value{msg, errs}, nil)
		}
		return w.newErr(msg)
	}, "fmt.Errorf")
	for _, n := range []string{"", "ln"} {
		ln := n == "ln"
		reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			sl, _ := a[0].(Slice)
			w.curFrame = fr
			return w.sprint(sl, ln)
		}, "fmt.Sprint"+n)
		reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			sl, _ := a[1].(Slice)
			w.curFrame = fr
			return w.writeTo(fr, a[0], w.sprint(sl, ln))
		}, "fmt.Fprint"+n)
		reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			sl, _ := a[1].(Slice)
			w.curFrame = fr
			return append(append(Slice{}, a[0].(Slice)...), w.strToBytes(w.sprint(sl, ln))...)
		}, "fmt.Append"+n)
	}
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		sl, _ := a[2].(Slice)
		w.curFrame = fr
		return append(append(Slice{}, a[0].(Slice)...), w.strToBytes(w.sprintf(a[1], sl))...)
	}, "fmt.Appendf")

	// ---- errors ----------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		target := a[1].(Iface)
		pt, ok := target.t.(*types.Pointer)
		p, ok2 := target.v.(*Value)
		if !ok || !ok2 || p == nil {
			panic(w.goPanicStr("errors: target must be a non-nil pointer"))
		}
		assign := &Native{f: func(w *W, fr *frame, b []Value) Value {
			err := b[0].(Iface)
			if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
				if !w.implements(err.t, it) {
					return false
				}
				w.setCell(p, err)
				return true
			}
			if !w.identical(err.t, pt.Elem()) {
				return false
			}
			w.setCell(p, err.v)
			return true
		}}
		return w.callFn(fr, w.prog.ImportedPackage("wiki2book/verifrt").Func("errorsAs"), []Value{a[0], a[1], assign}, nil)
	}, "errors.As")

	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !w.identical(x.t, y.t) || !types.Comparable(x.t) {
			return false
		}
		return tv(w.eqV(x.t, x.v, y.v))
	}, "wiki2book/verifrt.sameValue")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).Name")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return nil }, "(*internal/godebug.Setting).IncNonDefault")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		var v Value = zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return &v
	}, "internal/godebug.New")

	// ---- hashes ----------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := w.bytesToStr(a[0].(Slice))
		c, ok := s.(string)
		if !ok {
			unsupported("SHA-256 of symbolic data")
		}
		h := sha256.Sum256([]byte(c))
		r := make(Array, len(h))
		for i := range r {
			r[i] = uint64(h[i])
		}
		return r
	}, "crypto/sha256.Sum256")

	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Float64bits(f)
		}
		unsupported("bits of a symbolic float")
		return nil
	}, "math.Float64bits")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if b, ok := a[0].(uint64); ok {
			return math.Float64frombits(b)
		}
		unsupported("float of symbolic bits")
		return nil
	}, "math.Float64frombits")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return nil }, "log.Print", "log.Printf", "log.Println", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.doExit(fr, "process exit via log.Fatal")
	}, "log.Fatal", "log.Fatalf", "log.Fatalln")

	// ---- regexp ----------------------------------------------------------------------------------
	const R = "(*regexp.Regexp)."
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return U(reOf(a[0]).re.NumSubexp()) }, R+"NumSubexp")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return U(reOf(a[0]).re.SubexpIndex(S(a[1])))
	}, R+"SubexpIndex")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return strSliceVal(reOf(a[0]).re.SubexpNames())
	}, R+"SubexpNames")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := w.reFind(reOf(a[0]), w.bytesToStr(a[1].(Slice)))
		if m == nil {
			return Slice(nil)
		}
		return a[1].(Slice)[m[0]:m[1]]
	}, R+"Find")

	// ---- time: only names and constants ------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return U(1) }, "time.runtimeNano", "runtime.nanotime", "time.now", "time.runtimeNow")

	// ---- JSON --------------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return w.jsonUnknown(i.t, jnodeOf(a[1]))
	}, "wiki2book/verifrt.jsonUnknown")
}

func (w *W) jsonUnknown(t types.Type, n jn) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return w.jsonUnknown(u.Elem(), n)
	case *types.Slice:
		if n.kind == jList {
			for _, e := range n.list {
				if r := w.jsonUnknown(u.Elem(), jnodeOf(e)); r != "" {
					return r
				}
			}
		}
	case *types.Map:
		if n.kind == jObj {
			for _, e := range n.list {
				if r := w.jsonUnknown(u.Elem(), jnodeOf(e)); r != "" {
					return r
				}
			}
		}
	case *types.Struct:
		if n.kind != jObj {
			return ""
		}
		fs := jfields(u)
		for i, e := range n.list {
			found := false
			for k := range fs {
				ks, ok := n.keys[i].(string)
				if ok && strings.EqualFold(ks, fs[k].name) || !ok && w.forkT(w.strEqT(n.keys[i], fs[k].name)) {
					found = true
					if r := w.jsonUnknown(fs[k].t, jnodeOf(e)); r != "" {
						return r
					}
					break
				}
			}
			if !found {
				return fmt.Sprintf("json: unknown field %q", showV(n.keys[i]))
			}
		}
	}
	return ""
}
