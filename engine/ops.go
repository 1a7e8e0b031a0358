package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type runeN struct {
	r rune
	n int
}

func fullRune(b []byte) (runeN, bool) {
	if utf8.FullRune(b) {
		r, n := utf8.DecodeRune(b)
		return runeN{r, n}, true
	}
	return runeN{}, false
}

func decodeConc(b []byte) runeN {
	r, n := utf8.DecodeRune(b)
	return runeN{r, n}
}

func f32(t types.Type, v float64) float64 {
	if basicKind(t) == types.Float32 {
		return float64(float32(v))
	}
	return v
}

func (w *W) binop(op token.Token, ci *cinstr, x, y Value, t types.Type) Value {
	db := w.db
	switch op {
	case token.EQL:
		return tv(w.eqV(t, x, y))
	case token.NEQ:
		return tv(db.Not(w.eqV(t, x, y)))
	}
	// concrete integer fast path
	if a, ok := x.(uint64); ok && ci.w > 0 {
		if b, ok := y.(uint64); ok {
			return w.intOp(op, ci, a, b)
		}
	}
	switch a := x.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return w.strConcat(x, y)
		case token.LSS:
			return tv(w.strLtT(x, y, false))
		case token.LEQ:
			return tv(w.strLtT(x, y, true))
		case token.GTR:
			return tv(w.strLtT(y, x, false))
		case token.GEQ:
			return tv(w.strLtT(y, x, true))
		}
	case float64:
		if b, ok := y.(float64); ok {
			switch op {
			case token.ADD:
				return f32(t, a+b)
			case token.SUB:
				return f32(t, a-b)
			case token.MUL:
				return f32(t, a*b)
			case token.QUO:
				return f32(t, a/b)
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
	}
	if ci.w == 0 {
		bk := basicKind(t)
		if bk == types.Float64 {
			a, b := w.asTerm(x, wF64), w.asTerm(y, wF64)
			switch op {
			case token.ADD:
				return tv(db.F(OpFAdd, a, b))
			case token.SUB:
				return tv(db.F(OpFSub, a, b))
			case token.MUL:
				return tv(db.F(OpFMul, a, b))
			case token.QUO:
				return tv(db.F(OpFDiv, a, b))
			case token.LSS:
				return tv(db.F(OpFLt, a, b))
			case token.LEQ:
				return tv(db.F(OpFLe, a, b))
			case token.GTR:
				return tv(db.F(OpFLt, b, a))
			case token.GEQ:
				return tv(db.F(OpFLe, b, a))
			}
		}
		unsupported("binop %s on %T,%T", op, x, y)
	}
	// symbolic integers
	a := w.asTerm(x, ci.w)
	if op == token.SHL || op == token.SHR {
		sh := w.asTerm(y, ci.w2)
		if sh.w > ci.w {
			// saturate large shift counts
			big := db.Cmp(OpUle, db.Const(sh.w, uint64(ci.w)), sh)
			o := OpShl
			var fill *Term
			if op == token.SHR {
				o = OpLshr
				if ci.sg {
					o = OpAshr
				}
			}
			if o == OpAshr {
				fill = db.Bin(OpAshr, a, db.Const(ci.w, uint64(ci.w)-1))
			} else {
				fill = db.Const(ci.w, 0)
			}
			return tv(db.Ite(big, fill, db.Bin(o, a, db.Trunc(sh, ci.w))))
		}
		sh = db.Zext(sh, ci.w)
		switch {
		case op == token.SHL:
			return tv(db.Bin(OpShl, a, sh))
		case ci.sg:
			return tv(db.Bin(OpAshr, a, sh))
		default:
			return tv(db.Bin(OpLshr, a, sh))
		}
	}
	b := w.asTerm(y, ci.w)
	if ci.w == 64 && ci.sg {
		switch op {
		case token.QUO, token.REM, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x, y, ok := w.secondsOf(a, b); ok { // both are multiples of a second
				if op == token.REM {
					return tv(db.Bin(OpMul, db.Bin(OpSrem, x, y), db.Const(64, nanos)))
				}
				a, b = x, y
			}
		}
	}
	switch op {
	case token.ADD:
		return tv(db.Bin(OpAdd, a, b))
	case token.SUB:
		return tv(db.Bin(OpSub, a, b))
	case token.MUL:
		return tv(db.Bin(OpMul, a, b))
	case token.QUO, token.REM:
		if w.forkT(db.Eq(b, db.Const(ci.w, 0))) {
			panic(w.runtimeErr("integer divide by zero"))
		}
		o := OpUdiv
		switch {
		case op == token.QUO && ci.sg:
			o = OpSdiv
		case op == token.REM && ci.sg:
			o = OpSrem
		case op == token.REM:
			o = OpUrem
		}
		return tv(db.Bin(o, a, b))
	case token.AND:
		return tv(db.Bin(OpBAnd, a, b))
	case token.OR:
		return tv(db.Bin(OpBOr, a, b))
	case token.XOR:
		return tv(db.Bin(OpBXor, a, b))
	case token.AND_NOT:
		return tv(db.Bin(OpBAnd, a, db.Bin(OpBXor, b, db.Const(ci.w, maskW(ci.w)))))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OpUlt, OpUle
		if ci.sg {
			lt, le = OpSlt, OpSle
		}
		switch op {
		case token.LSS:
			return tv(db.Cmp(lt, a, b))
		case token.LEQ:
			return tv(db.Cmp(le, a, b))
		case token.GTR:
			return tv(db.Cmp(lt, b, a))
		default:
			return tv(db.Cmp(le, b, a))
		}
	}
	unsupported("binop %s", op)
	return nil
}

func (w *W) intOp(op token.Token, ci *cinstr, a, b uint64) Value {
	m := maskW(ci.w)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			panic(w.runtimeErr("integer divide by zero"))
		}
		switch {
		case ci.sg && op == token.QUO:
			return foldBin(OpSdiv, ci.w, a, b)
		case ci.sg:
			return foldBin(OpSrem, ci.w, a, b)
		case op == token.QUO:
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL:
		if ci.sg2 && sx(b, ci.w2) < 0 {
			panic(w.runtimeErr("negative shift amount"))
		}
		if b >= 64 {
			return uint64(0)
		}
		return (a << b) & m
	case token.SHR:
		if ci.sg2 && sx(b, ci.w2) < 0 {
			panic(w.runtimeErr("negative shift amount"))
		}
		if ci.sg {
			if b > 63 {
				b = 63
			}
			return uint64(sx(a, ci.w)>>b) & m
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	case token.LSS:
		if ci.sg {
			return sx(a, ci.w) < sx(b, ci.w)
		}
		return a < b
	case token.LEQ:
		if ci.sg {
			return sx(a, ci.w) <= sx(b, ci.w)
		}
		return a <= b
	case token.GTR:
		if ci.sg {
			return sx(a, ci.w) > sx(b, ci.w)
		}
		return a > b
	case token.GEQ:
		if ci.sg {
			return sx(a, ci.w) >= sx(b, ci.w)
		}
		return a >= b
	}
	panic("intOp " + op.String())
}

func (w *W) convert(ci *cinstr, from, to types.Type, x Value) Value {
	db := w.db
	ut, uf := to.Underlying(), from.Underlying()
	if ci.w > 0 && ci.w2 > 0 { // int -> int
		switch v := x.(type) {
		case uint64:
			if ci.sg {
				return uint64(sx(v, ci.w)) & maskW(ci.w2)
			}
			return v & maskW(ci.w2)
		case *Term:
			return tv(db.Resize(v, ci.w2, ci.sg))
		case *Value, ElemPtr:
			return v // uintptr holding a pointer (NoEscape tricks)
		}
	}
	fb, fIsB := uf.(*types.Basic)
	tb, tIsB := ut.(*types.Basic)
	// pointers / unsafe.Pointer
	if tIsB && tb.Kind() == types.UnsafePointer {
		return x
	}
	if pt, ok := ut.(*types.Pointer); ok {
		// The bits of a float read through a pointer cast (math.Float64bits
		// and math.Float64frombits inlined into their callers).
		if p, ok := x.(*Value); ok {
			if eb, ok := pt.Elem().Underlying().(*types.Basic); ok {
				switch v := (*p).(type) {
				case float64:
					switch eb.Kind() {
					case types.Uint64, types.Int64:
						var r Value = math.Float64bits(v)
						return &r
					case types.Uint32, types.Int32:
						var r Value = uint64(math.Float32bits(float32(v)))
						return &r
					}
				case uint64:
					switch eb.Kind() {
					case types.Float64:
						var r Value = math.Float64frombits(v)
						return &r
					case types.Float32:
						var r Value = float64(math.Float32frombits(uint32(v)))
						return &r
					}
				}
			}
		}
		return x
	}
	if fIsB && fb.Kind() == types.UnsafePointer {
		return x
	}
	// to string
	if tIsB && tb.Info()&types.IsString != 0 {
		switch v := x.(type) {
		case string, *SymStr:
			return v
		case uint64: // rune
			return string(rune(sx(v, ci.w)))
		case *Term:
			return w.encodeRune(w.db.Resize(v, 32, ci.sg))
		case Slice:
			et := uf.(*types.Slice).Elem()
			if k := basicKind(et); k == types.Uint8 {
				return w.bytesToStr(v)
			}
			var r Value = ""
			var parts []Value
			for _, c := range v {
				parts = append(parts, w.encodeRune(w.asTerm(c, 32)))
			}
			return w.concatAll(r, parts)
		}
	}
	// from string
	if st, ok := ut.(*types.Slice); ok {
		switch x.(type) {
		case string, *SymStr:
			if k := basicKind(st.Elem()); k == types.Uint8 {
				return w.strToBytes(x)
			}
			r := Slice{}
			for p := 0; p < strLen(x); {
				c, n := w.decodeRune(x, p)
				r = append(r, c)
				p += n
			}
			return r[:len(r):len(r)]
		}
		return x
	}
	// floats
	if tIsB && tb.Info()&types.IsFloat != 0 {
		switch v := x.(type) {
		case float64:
			return f32(to, v)
		case uint64:
			if ci.sg {
				return f32(to, float64(sx(v, ci.w)))
			}
			return f32(to, float64(v))
		case *Term:
			if v.w == wF64 {
				return v
			}
			return tv(db.FFrom(v, ci.sg))
		}
	}
	if ci.w2 > 0 && fIsB && fb.Info()&types.IsFloat != 0 {
		switch v := x.(type) {
		case float64:
			if ci.sg2 {
				return uint64(int64(v)) & maskW(ci.w2)
			}
			return uint64(v) & maskW(ci.w2)
		case *Term:
			return tv(db.FToS(v, ci.w2))
		}
	}
	unsupported("conversion %s -> %s of %T", from, to, x)
	return nil
}

func (w *W) concatAll(first Value, parts []Value) Value {
	n := strLen(first)
	allc := true
	for _, p := range parts {
		n += strLen(p)
		if _, ok := p.(string); !ok {
			allc = false
		}
	}
	if fs, ok := first.(string); ok && allc {
		b := make([]byte, 0, n)
		b = append(b, fs...)
		for _, p := range parts {
			b = append(b, p.(string)...)
		}
		return string(b)
	}
	r := make([]*Term, 0, n)
	r = append(r, w.strTerms(first)...)
	for _, p := range parts {
		r = append(r, w.strTerms(p)...)
	}
	return normStr(r)
}

func (w *W) encodeRune(t *Term) Value {
	if t.op == OpConst {
		return string(rune(sx(t.c, 32)))
	}
	if w.forkT(w.db.Cmp(OpUlt, t, w.db.Const(32, 0x80))) {
		return normStr([]*Term{w.db.Trunc(t, 8)})
	}
	return string(rune(sx(w.concretize(t), 32)))
}

func (w *W) bytesToStr(s Slice) Value {
	conc := true
	for _, c := range s {
		if _, ok := c.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(s))
		for i, c := range s {
			b[i] = byte(c.(uint64))
		}
		return string(b)
	}
	r := make([]*Term, len(s))
	for i, c := range s {
		r[i] = w.asTerm(c, 8)
	}
	return &SymStr{r}
}

func (w *W) strToBytes(x Value) Slice {
	n := strLen(x)
	r := make(Slice, n)
	switch v := x.(type) {
	case string:
		for i := 0; i < n; i++ {
			r[i] = uint64(v[i])
		}
	case *SymStr:
		for i := 0; i < n; i++ {
			r[i] = tv(v.b[i])
		}
	}
	return r
}

func (w *W) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "Sizeof":
		return uint64(types.SizesFor("gc", "amd64").Sizeof(b.Type().(*types.Signature).Params().At(0).Type()))
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			w.touchMap(fr, x, false)
			return uint64(x.live)
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *Chan:
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].(Slice)
		var add Slice
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = w.strToBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if w.raceOn(fr) {
			if _, ok := args[1].(Slice); ok {
				w.touchSlice(fr, add, false)
			}
			if n > cap(s) {
				w.touchSlice(fr, s, false)
			} else {
				w.touchSlice(fr, s[len(s):n], true)
			}
		}
		if n <= cap(s) {
			r := s[:n]
			for i, v := range add {
				v = copyVal(v)
				if w.journaling {
					p := &r[len(s)+i]
					w.journal = append(w.journal, jent{p: p, old: *p})
				}
				r[len(s)+i] = v
			}
			return r
		}
		nc := cap(s) * 2
		if nc < n {
			nc = n
		}
		r := make(Slice, n, nc)
		copy(r, s)
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		// spare capacity must hold zero values
		if nc > n {
			var et types.Type
			if c != nil {
				if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					et = st.Elem()
				}
			}
			if et == nil {
				r = r[:n:n]
			} else {
				fillZero(r[n:nc], et)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src Slice
		switch y := args[1].(type) {
		case Slice:
			src = y
		case string, *SymStr:
			src = w.strToBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if w.raceOn(fr) {
			if _, ok := args[1].(Slice); ok {
				w.touchSlice(fr, src[:n], false)
			}
			w.touchSlice(fr, d[:n], true)
		}
		tmp := make(Slice, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.setCell(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		if m := asMap(args[0]); m != nil {
			w.touchMap(fr, m, true)
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEnt{}, x.ents...) {
					if !e.dead {
						w.mapDelete(x, e.k)
					}
				}
			}
		case Slice:
			if len(x) > 0 {
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					w.setCell(&x[i], zero(et))
				}
			}
		}
		return nil
	case "close":
		w.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanic{v: args[0], stack: w.stackOf(fr)})
	case "recover":
		// called by a deferred function: the panicking frame is the caller of fr
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			gp := fr.caller.pan.(goPanic)
			return gp.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		rt := c.Args[0].Type()
		ww, sg := intInfo(rt)
		ci := &cinstr{w: ww, sg: sg}
		for _, a := range args[1:] {
			lt := w.binop(token.LSS, ci, a, r, rt)
			if b.Name() == "max" {
				lt = w.binop(token.LSS, ci, r, a, rt)
			}
			switch l := lt.(type) {
			case bool:
				if l {
					r = a
				}
			case *Term:
				if ww > 0 {
					r = tv(w.db.Ite(l, w.asTerm(a, ww), w.asTerm(r, ww)))
				} else if w.forkT(l) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(w.runtimeErr("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		n := int(w.concInt(args[1], 64))
		switch p := args[0].(type) {
		case ElemPtr:
			if p.str != nil {
				return strSlice(p.str, 0, n)
			}
			return w.bytesToStr(p.sl[:n])
		case *Value:
			if n == 0 {
				return ""
			}
			return w.bytesToStr(Slice(unsafe.Slice(p, n))) // p is an element of a slice or array
		}
	case "StringData":
		return ElemPtr{str: args[0]}
	case "SliceData":
		return ElemPtr{sl: args[0].(Slice)}
	case "Slice": // unsafe.Slice
		n := int(w.concInt(args[1], 64))
		switch p := args[0].(type) {
		case ElemPtr:
			if p.str != nil {
				return w.strToBytes(strSlice(p.str, 0, n))
			}
			return p.sl[:n]
		case *Value:
			if p == nil && n == 0 {
				return Slice(nil)
			}
			return Slice(unsafe.Slice(p, n))
		}
	}
	unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func fitsF(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

var _ = fmt.Sprint
