package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | *Term(w=0)           booleans
//	uint64 | *Term(w=1..64)     integers (zero extended to 64 bit when concrete)
//	float64 | *Term(wF64)       floats
//	string | *SymStr            strings
//	*Value                      pointers
//	Struct, Array               aggregates (held by reference in a cell, copied on load/store)
//	Slice                       slices
//	*Map, *Chan                 maps, channels
//	Iface                       interfaces
//	*Closure, *ssa.Function, *ssa.Builtin, *Native   functions
//	Tuple                       multiple results
//	ElemPtr                     result of unsafe.SliceData/StringData
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type SymStr struct {
	b []*Term // 8 bit terms, at least one not constant
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Native is a function value implemented by the engine.
type Native struct {
	name string
	f    func(w *W, fr *frame, args []Value) Value
}

// NativeObj is an opaque engine object held in a cell (for example a compiled regexp).
type NativeObj struct {
	v any
}

type ElemPtr struct {
	sl  Slice
	str Value
}

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[any]int
	nsym int
	live int
	kt   types.Type
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// intInfo returns width and signedness of an integer type (w=0 if it is not an integer).
func intInfo(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.UnsafePointer:
		return 0, false
	}
	return 0, false
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return (*Value)(nil)
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
		if t.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			switch z := zero(t.Elem()).(type) {
			case Struct, Array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		unsupported("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: unexpected %T", t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// ---- strings ----------------------------------------------------------------

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func (w *W) strByte(v Value, i int) *Term {
	switch v := v.(type) {
	case string:
		return w.db.bytes[v[i]]
	case *SymStr:
		return v.b[i]
	}
	panic("strByte")
}

// strByteV returns the byte as a Value.
func (w *W) strByteV(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SymStr:
		return tv(v.b[i])
	}
	panic("strByteV")
}

func (w *W) strTerms(v Value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := range r {
			r[i] = w.db.bytes[v[i]]
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strTerms %T", v))
}

func normStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OpConst {
			return &SymStr{b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, t := range b {
		sb.WriteByte(byte(t.c))
	}
	return sb.String()
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return normStr(v.b[lo:hi])
	}
	panic("strSlice")
}

func (w *W) strConcat(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as + bs
	}
	if ok1 && as == "" {
		return b
	}
	if ok2 && bs == "" {
		return a
	}
	x, y := w.strTerms(a), w.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return &SymStr{r}
}

// tv turns a term into a Value (constants become concrete).
func tv(t *Term) Value {
	if t.op == OpConst {
		switch t.w {
		case 0:
			return t.c == 1
		case wF64:
			return f64(t.c)
		}
		return t.c
	}
	return t
}

func (w *W) strEqT(a, b Value) *Term {
	if strLen(a) != strLen(b) {
		return w.db.ff
	}
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return w.db.Bool(as == bs)
	}
	n := strLen(a)
	r := w.db.tt
	// constants first: cheap refutation
	for i := 0; i < n; i++ {
		x, y := w.strByte(a, i), w.strByte(b, i)
		if x.op == OpConst && y.op == OpConst && x != y {
			return w.db.ff
		}
	}
	for i := n - 1; i >= 0; i-- {
		r = w.db.And(w.db.Eq(w.strByte(a, i), w.strByte(b, i)), r)
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (w *W) strLtT(a, b Value, orEq bool) *Term {
	n, m := strLen(a), strLen(b)
	k := n
	if m < k {
		k = m
	}
	r := w.db.Bool(n < m || orEq && n == m)
	for i := k - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.db.Or(w.db.Cmp(OpUlt, x, y), w.db.And(w.db.Eq(x, y), r))
	}
	return r
}

// asTerm converts an integer/bool/float Value to a term of the given width.
func (w *W) asTerm(v Value, width uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.db.Const(width, v)
	case bool:
		return w.db.Bool(v)
	case float64:
		return w.db.Const(wF64, bitsOf(v))
	}
	panic(fmt.Sprintf("asTerm of %T", v))
}

func isNilV(v Value) bool {
	switch v := v.(type) {
	case *Value:
		return v == nil
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case Iface:
		return v.t == nil
	case *Closure:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *ssa.Builtin:
		return v == nil
	case *Native:
		return v == nil
	case nil:
		return true
	case ElemPtr:
		return false
	}
	return false
}

func sameFuncOrNil(x, y Value) bool { return isNilV(x) && isNilV(y) }

// eqV compares two values of static type t.
func (w *W) eqV(t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return w.db.Bool(a == b)
		}
		return w.db.Eq(w.asTerm(x, 0), w.asTerm(y, 0))
	case uint64:
		if b, ok := y.(uint64); ok {
			return w.db.Bool(a == b)
		}
		b := y.(*Term)
		return w.db.Eq(w.db.Const(b.w, a), b)
	case float64:
		if b, ok := y.(float64); ok {
			return w.db.Bool(a == b)
		}
		return w.db.F(OpFEq, w.asTerm(x, wF64), w.asTerm(y, wF64))
	case *Term:
		if a.w == wF64 {
			return w.db.F(OpFEq, a, w.asTerm(y, wF64))
		}
		return w.db.Eq(a, w.asTerm(y, a.w))
	case string, *SymStr:
		return w.strEqT(x, y)
	case *Value:
		b, ok := y.(*Value)
		return w.db.Bool(ok && a == b || !ok && a == nil && isNilV(y))
	case *Map:
		b, _ := y.(*Map)
		return w.db.Bool(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return w.db.Bool(a == b)
	case Slice:
		b, _ := y.(Slice)
		return w.db.Bool(a == nil && b == nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return w.db.Bool(a.t == nil && isNilV(y))
		}
		if a.t == nil || b.t == nil {
			return w.db.Bool(a.t == nil && b.t == nil)
		}
		if !w.identical(a.t, b.t) {
			return w.db.ff
		}
		if !types.Comparable(a.t) {
			panic(w.runtimeErr("comparing uncomparable type " + a.t.String()))
		}
		return w.eqV(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		r := w.db.tt
		for i := range a {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = w.db.And(r, w.eqV(ft, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		b := y.(Array)
		r := w.db.tt
		for i := range a {
			r = w.db.And(r, w.eqV(nil, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Closure:
		b, ok := y.(*Closure)
		return w.db.Bool(ok && a == b || !ok && a == nil && isNilV(y))
	case *ssa.Function:
		b, ok := y.(*ssa.Function)
		return w.db.Bool(ok && a == b || !ok && a == nil && isNilV(y))
	case *Native:
		b, ok := y.(*Native)
		return w.db.Bool(ok && a == b)
	case ElemPtr:
		return w.db.Bool(false)
	case nil:
		return w.db.Bool(isNilV(y))
	case NativeObj:
		return w.db.Bool(false)
	}
	panic(fmt.Sprintf("eqV: %T", x))
}

// ---- maps ----------------------------------------------------------------------

// keyConc returns a comparable Go key for a fully concrete map key.
func keyConc(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, float64, string, *Value, *Chan:
		return v, true
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := keyConc(v.v)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("I%s|%T:%v", v.t.String(), k, k), true
	case Struct:
		s := "S"
		for _, f := range v {
			k, ok := keyConc(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%q", k, fmt.Sprint(k))
		}
		return s, true
	case Array:
		s := "A"
		for _, f := range v {
			k, ok := keyConc(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%q", k, fmt.Sprint(k))
		}
		return s, true
	}
	return nil, false
}

func newMap(kt types.Type) *Map { return &Map{idx: map[any]int{}, kt: kt} }

func (w *W) mapFind(m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if kc, ok := keyConc(k); ok {
		if i, ok := m.idx[kc]; ok {
			return m.ents[i]
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, c := keyConc(e.k); c {
				continue
			}
			if w.forkT(w.eqV(m.kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.forkT(w.eqV(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(goPanic{v: Iface{t: w.sh.rtErrType, v: "assignment to entry in nil map"}, stack: w.stackOf(w.curFrame)})
	}
	if e := w.mapFind(m, k); e != nil {
		old := e.v
		w.undo(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	kc, conc := keyConc(k)
	w.undo(func() {
		m.ents = m.ents[:len(m.ents)-1]
		m.live--
		if conc {
			delete(m.idx, kc)
		} else {
			m.nsym--
		}
	})
	m.ents = append(m.ents, e)
	m.live++
	if conc {
		m.idx[kc] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (w *W) mapDelete(m *Map, k Value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	i := -1
	for j, x := range m.ents {
		if x == e {
			i = j
		}
	}
	kc, conc := keyConc(e.k)
	w.undo(func() {
		e.dead = false
		m.live++
		if conc {
			m.idx[kc] = i
		} else {
			m.nsym++
		}
	})
	e.dead = true
	m.live--
	if conc {
		delete(m.idx, kc)
	} else {
		m.nsym--
	}
}

// ---- debugging -----------------------------------------------------------------

func showV(v Value) string {
	switch v := v.(type) {
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("sym\"")
		for _, t := range v.b {
			if t.op == OpConst {
				sb.WriteByte(byte(t.c))
			} else {
				sb.WriteString("{" + t.String() + "}")
			}
		}
		sb.WriteString("\"")
		return sb.String()
	case string:
		return fmt.Sprintf("%q", v)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + ":" + showV(v.v)
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + fmt.Sprintf("%T", *v)
	case *Term:
		return v.String()
	case Struct:
		s := "{"
		for i, x := range v {
			if i > 0 {
				s += ","
			}
			s += showV(x)
		}
		return s + "}"
	case Slice:
		s := "["
		for i, x := range v {
			if i > 0 {
				s += ","
			}
			if i > 20 {
				s += "..."
				break
			}
			s += showV(x)
		}
		return s + "]"
	}
	return fmt.Sprintf("%v", v)
}
