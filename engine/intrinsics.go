package main

import (
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *W, fr *frame, fn *ssa.Function, args []Value) Value

type fallThru struct{}

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if t, ok := redirects[name]; ok {
		return redirectIntr(t)
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		switch {
		case p == "github.com/hauke96/sigolo/v2":
			return sigoloIntr(fn)
		case p == "sync/atomic" || p == "internal/runtime/atomic":
			if len(fn.Blocks) == 0 {
				return atomicIntr(fn)
			}
		}
	}
	return nil
}

// packages whose initialisation is not executed (their globals stay zero or are set elsewhere)
func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "net", "net/http", "internal/poll", "internal/godebug", "internal/cpu", "reflect", "crypto/tls", "crypto/x509",
		"internal/godebugs", "runtime/debug", "os/exec", "encoding/json", "crypto", "crypto/sha1", "crypto/md5", "internal/testlog", "math/rand", "math/rand/v2", "log",
		"github.com/hauke96/sigolo/v2", "vendor/golang.org/x/net/http2/hpack", "text/template", "html/template", "net/netip", "mime", "mime/multipart", "compress/flate", "hash/crc32", "archive/zip":
		return true
	}
	if strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "runtime/") {
		return true
	}
	return false
}

func allConc(args []Value) bool {
	for _, a := range args {
		switch v := a.(type) {
		case *SymStr, *Term:
			return false
		case Slice:
			for _, x := range v {
				switch x.(type) {
				case *SymStr, *Term:
					return false
				}
			}
		}
	}
	return true
}

func S(v Value) string { return v.(string) }
func I(v Value) int    { return int(int64(v.(uint64))) }
func U(i int) Value    { return uint64(int64(i)) }

func strSliceVal(ss []string) Value {
	if ss == nil {
		return Slice(nil)
	}
	r := make(Slice, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

// nilErr is the nil error interface.
var nilErr = Iface{}

// newErr makes an error value with the given message (a *errors.errorString).
func (w *W) newErr(msg Value) Iface {
	pkg := w.prog.ImportedPackage("errors")
	fn := pkg.Func("New")
	return w.callFn(w.curFrame, fn, []Value{msg}, nil).(Iface)
}

func (w *W) doExit(fr *frame, msg string) Value {
	panic(pathEnd{"exit", msg + "\n" + w.stackOf(fr)})
}

func sigoloIntr(fn *ssa.Function) intrinsic {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		return nil
	}
	switch {
	case n == "FatalCheck" || n == "FatalCheckf" || n == "FatalCheckb":
		return func(w *W, fr *frame, fn *ssa.Function, args []Value) Value {
			i := 0
			if n == "FatalCheckb" {
				i = 1
			}
			if e, ok := args[i].(Iface); ok && e.t == nil {
				return nil
			}
			return w.doExit(fr, "process exit via sigolo."+n)
		}
	case strings.HasPrefix(n, "Fatal"):
		return func(w *W, fr *frame, fn *ssa.Function, args []Value) Value {
			return w.doExit(fr, "process exit via sigolo."+n)
		}
	case n == "init":
		return nil
	}
	return func(w *W, fr *frame, fn *ssa.Function, args []Value) Value {
		return zeroRes(fn)
	}
}

func zeroRes(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func atomicIntr(fn *ssa.Function) intrinsic {
	n := fn.Name()
	return func(w *W, fr *frame, fn *ssa.Function, args []Value) Value {
		p, ok := args[0].(*Value)
		if !ok || p == nil {
			unsupported("atomic on %T", args[0])
		}
		w.yield()
		w.acquire(p)
		if !strings.HasPrefix(n, "Load") {
			w.release(p)
		}
		width := uint8(64)
		if pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			if x, _ := intInfo(pt.Elem()); x > 0 {
				width = x
			}
		}
		switch {
		case strings.HasPrefix(n, "Load"):
			return *p
		case strings.HasPrefix(n, "Store"):
			w.setCell(p, args[1])
			return nil
		case strings.HasPrefix(n, "Add"), strings.HasPrefix(n, "Xadd"):
			v := tv(w.db.Bin(OpAdd, w.asTerm(*p, width), w.asTerm(args[1], width)))
			w.setCell(p, v)
			return v
		case strings.HasPrefix(n, "Swap"), strings.HasPrefix(n, "Xchg"):
			o := *p
			w.setCell(p, args[1])
			return o
		case strings.HasPrefix(n, "CompareAndSwap"), strings.HasPrefix(n, "Cas"):
			if w.forkT(w.eqV(nil, *p, args[1])) {
				w.setCell(p, args[2])
				return true
			}
			return false
		}
		unsupported("atomic %s", n)
		return nil
	}
}

// ---- symbolic string helpers ------------------------------------------------------------

// matchAt is the term "s[i:i+len(sub)] == sub".
func (w *W) matchAt(s, sub Value, i int) *Term {
	n := strLen(sub)
	r := w.db.tt
	for k := n - 1; k >= 0; k-- {
		x, y := w.strByte(s, i+k), w.strByte(sub, k)
		if x.op == OpConst && y.op == OpConst {
			if x != y {
				return w.db.ff
			}
			continue
		}
		r = w.db.And(w.db.Eq(x, y), r)
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (w *W) containsT(s, sub Value) *Term {
	n, m := strLen(s), strLen(sub)
	r := w.db.ff
	for i := n - m; i >= 0; i-- {
		r = w.db.Or(w.matchAt(s, sub, i), r)
		if r.isTrue() {
			return r
		}
	}
	return r
}

func (w *W) indexStr(s, sub Value) int {
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if w.forkT(w.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func (w *W) lastIndexStr(s, sub Value) int {
	n, m := strLen(s), strLen(sub)
	for i := n - m; i >= 0; i-- {
		if w.forkT(w.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

// inSet is the term "b is one of the bytes for which f holds".
func (w *W) inSet(b *Term, f func(c byte) bool) *Term {
	if b.op == OpConst {
		return w.db.Bool(f(byte(b.c)))
	}
	r := w.db.ff
	for lo := 0; lo < 256; {
		if !f(byte(lo)) {
			lo++
			continue
		}
		hi := lo
		for hi+1 < 256 && f(byte(hi+1)) {
			hi++
		}
		var t *Term
		if lo == hi {
			t = w.db.Eq(b, w.db.bytes[lo])
		} else {
			t = w.db.And(w.db.Cmp(OpUle, w.db.bytes[lo], b), w.db.Cmp(OpUle, b, w.db.bytes[hi]))
		}
		r = w.db.Or(r, t)
		lo = hi + 1
	}
	return r
}

// asciiOnly makes sure that all bytes of s are decided to be ASCII or concrete; it reports whether
// all of them are ASCII.
func (w *W) asciiOnly(s Value) bool {
	ascii := true
	for i := 0; i < strLen(s); i++ {
		b := w.strByte(s, i)
		if b.op == OpConst {
			if b.c >= 0x80 {
				ascii = false
			}
			continue
		}
		if !w.forkT(w.db.Cmp(OpUlt, b, w.db.Const(8, 0x80))) {
			w.concretize(b)
			ascii = false
		}
	}
	return ascii
}

// reconc replaces bytes fixed by the path condition (after concretize) with constants.
func (w *W) reconc(s Value) Value {
	x, ok := s.(*SymStr)
	if !ok {
		return s
	}
	r := make([]*Term, len(x.b))
	for i, t := range x.b {
		r[i] = t
		if t.op != OpConst && len(t.vars) == 1 && w.varW[t.vars[0]] == 8 {
			d := w.domOf(t.vars[0])
			if domCount(&d) == 1 {
				m := make([]uint64, t.vars[0]+1)
				m[t.vars[0]] = uint64(domFirst(&d))
				w.db.newEval()
				r[i] = w.db.bytes[w.db.ev(t, m)&0xff]
			}
		}
	}
	return normStr(r)
}

func (w *W) mapCase(s Value, lower bool) Value {
	if c, ok := s.(string); ok {
		if lower {
			return strings.ToLower(c)
		}
		return strings.ToUpper(c)
	}
	ascii := w.asciiOnly(s)
	if !ascii {
		s = w.reconc(s)
	}
	n := strLen(s)
	var out []*Term
	for i := 0; i < n; {
		b := w.strByte(s, i)
		if b.op == OpConst && b.c >= 0x80 {
			var buf []byte
			j := i
			for j < n && w.strByte(s, j).op == OpConst && w.strByte(s, j).c >= 0x80 {
				buf = append(buf, byte(w.strByte(s, j).c))
				j++
			}
			var m string
			if lower {
				m = strings.ToLower(string(buf))
			} else {
				m = strings.ToUpper(string(buf))
			}
			for k := 0; k < len(m); k++ {
				out = append(out, w.db.bytes[m[k]])
			}
			i = j
			continue
		}
		lo, hi, d := byte('A'), byte('Z'), uint64(32)
		if !lower {
			lo, hi, d = 'a', 'z', uint64(0xe0)
		}
		c := w.inSet(b, func(c byte) bool { return c >= lo && c <= hi })
		out = append(out, w.db.Ite(c, w.db.Bin(OpAdd, b, w.db.Const(8, d)), b))
		i++
	}
	return normStr(out)
}

func isSpaceASCII(c byte) bool {
	return c == ' ' || c >= '\t' && c <= '\r'
}

func (w *W) trimFunc(s Value, left, right bool, f func(c rune) bool) Value {
	lo, hi := 0, strLen(s)
	test := func(t *Term) bool { // ASCII byte decided
		return w.forkT(w.inSet(t, func(c byte) bool { return c < 0x80 && f(rune(c)) }))
	}
	if left {
		for lo < hi {
			b := w.strByte(s, lo)
			if b.op == OpConst && b.c < 0x80 {
				if !f(rune(b.c)) {
					break
				}
				lo++
				continue
			}
			if b.op != OpConst && w.forkT(w.db.Cmp(OpUlt, b, w.db.Const(8, 0x80))) {
				if !test(b) {
					break
				}
				lo++
				continue
			}
			r, n := w.decodeRune(strSlice(s, 0, hi), lo)
			if !f(rune(sx(r.(uint64), 32))) {
				break
			}
			lo += n
		}
	}
	if right {
		for hi > lo {
			b := w.strByte(s, hi-1)
			if b.op == OpConst && b.c < 0x80 {
				if !f(rune(b.c)) {
					break
				}
				hi--
				continue
			}
			if b.op != OpConst && w.forkT(w.db.Cmp(OpUlt, b, w.db.Const(8, 0x80))) {
				if !test(b) {
					break
				}
				hi--
				continue
			}
			// non ASCII tail: make the last bytes concrete
			k := hi - 1
			for k > lo && k > hi-4 {
				t := w.strByte(s, k)
				var c uint64
				if t.op == OpConst {
					c = t.c
				} else {
					c = w.concretize(t)
				}
				if c < 0x80 || c >= 0xc0 {
					break
				}
				k--
			}
			s = w.reconc(s)
			var buf []byte
			for j := k; j < hi; j++ {
				t := w.strByte(s, j)
				if t.op != OpConst {
					t = w.db.bytes[w.concretize(t)]
				}
				buf = append(buf, byte(t.c))
			}
			r, n := utf8.DecodeLastRune(buf)
			if !f(r) {
				break
			}
			hi -= n
		}
	}
	return strSlice(s, lo, hi)
}

// ---- string formatting --------------------------------------------------------------------

// itoa renders a (possibly symbolic) integer.
func (w *W) itoa(v Value, width uint8, signed bool) Value {
	switch x := v.(type) {
	case uint64:
		if signed {
			return strconv.FormatInt(sx(x, width), 10)
		}
		return strconv.FormatUint(x, 10)
	case *Term:
		db := w.db
		t := db.Resize(x, 64, signed)
		neg := false
		if signed && w.forkT(db.Cmp(OpSlt, t, db.Const(64, 0))) {
			neg = true
			t = db.Bin(OpSub, db.Const(64, 0), t)
		}
		nd := 1
		p := uint64(10)
		for nd < 19 {
			if w.forkT(db.Cmp(OpUlt, t, db.Const(64, p))) {
				break
			}
			p *= 10
			nd++
		}
		b := make([]*Term, nd)
		for i := nd - 1; i >= 0; i-- {
			d := db.Bin(OpUrem, t, db.Const(64, 10))
			b[i] = db.Bin(OpAdd, db.Trunc(d, 8), db.Const(8, '0'))
			t = db.Bin(OpUdiv, t, db.Const(64, 10))
		}
		var r Value = normStr(b)
		if neg {
			r = w.strConcat("-", r)
		}
		return r
	}
	unsupported("itoa %T", v)
	return nil
}

func (w *W) fmtArg(verb byte, plus bool, a Iface) Value {
	if a.t == nil {
		if verb == 's' || verb == 'd' {
			return "%!" + string(verb) + "(<nil>)"
		}
		return "<nil>"
	}
	if verb == 'T' {
		return a.t.String()
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if a.t == w.sh.rtErrType {
			return a.v
		}
		if s, ok := w.errString(a); ok {
			if verb == 'q' {
				return w.quote(s)
			}
			return s
		}
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	return w.fmtVal(verb, plus, a.t, a.v)
}

func (w *W) quote(s Value) Value {
	if c, ok := s.(string); ok {
		return strconv.Quote(c)
	}
	return w.concatAll("\"", []Value{s, "\""})
}

func (w *W) fmtVal(verb byte, plus bool, t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 'q':
				return w.quote(v)
			case 'x', 'X':
				if c, ok := v.(string); ok {
					return fmt.Sprintf("%"+string(verb), c)
				}
				return w.hexStr(v, verb == 'X')
			case 'd':
				return w.concatAll("%!d(string=", []Value{v, ")"})
			}
			return v
		case u.Info()&types.IsBoolean != 0:
			switch b := v.(type) {
			case bool:
				return fmt.Sprint(b)
			case *Term:
				if w.forkT(b) {
					return "true"
				}
				return "false"
			}
		case u.Info()&types.IsInteger != 0:
			wd, sg := intInfo(t)
			if verb == 'c' {
				return w.encodeRune(w.db.Resize(w.asTerm(v, wd), 32, sg))
			}
			if c, ok := v.(uint64); ok && verb != 'd' && verb != 'v' && verb != 's' {
				if sg {
					return fmt.Sprintf("%"+string(verb), sx(c, wd))
				}
				return fmt.Sprintf("%"+string(verb), c)
			}
			return w.itoa(v, wd, sg)
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				return fmt.Sprintf("%"+string(verb), f)
			}
			return "<float>"
		}
	case *types.Slice:
		s := v.(Slice)
		if basicKind(u.Elem()) == types.Uint8 && (verb == 's' || verb == 'x') {
			st := w.bytesToStr(s)
			if verb == 'x' {
				return w.hexStr(st, false)
			}
			return st
		}
		parts := []Value{}
		for i, x := range s {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, w.fmtElem(verb, plus, u.Elem(), x))
		}
		parts = append(parts, "]")
		return w.concatAll("[", parts)
	case *types.Array:
		a := v.(Array)
		if basicKind(u.Elem()) == types.Uint8 && (verb == 's' || verb == 'x') {
			st := w.bytesToStr(Slice(a))
			if verb == 'x' {
				return w.hexStr(st, false)
			}
			return st
		}
	case *types.Struct:
		parts := []Value{}
		for i, x := range v.(Struct) {
			if i > 0 {
				parts = append(parts, " ")
			}
			if plus {
				parts = append(parts, u.Field(i).Name()+":")
			}
			parts = append(parts, w.fmtElem(verb, plus, u.Field(i).Type(), x))
		}
		parts = append(parts, "}")
		return w.concatAll("{", parts)
	case *types.Interface:
		return w.fmtArg(verb, plus, v.(Iface))
	case *types.Map:
		m := asMap(v)
		var ents []*mapEnt
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					ents = append(ents, e)
				}
			}
		}
		sort.SliceStable(ents, func(i, j int) bool { return fmt.Sprint(ents[i].k) < fmt.Sprint(ents[j].k) })
		parts := []Value{}
		for i, e := range ents {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, w.fmtElem(verb, plus, u.Key(), e.k), ":", w.fmtElem(verb, plus, u.Elem(), e.v))
		}
		parts = append(parts, "]")
		return w.concatAll("map[", parts)
	}
	return "0xc000000000"
}

func (w *W) fmtElem(verb byte, plus bool, t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.fmtArg(verb, plus, v.(Iface))
	}
	return w.fmtArg(verb, plus, Iface{t: t, v: v})
}

func (w *W) hexStr(s Value, upper bool) Value {
	digits := "0123456789abcdef"
	if upper {
		digits = "0123456789ABCDEF"
	}
	var out []*Term
	for i := 0; i < strLen(s); i++ {
		b := w.strByte(s, i)
		for _, sh := range []uint64{4, 0} {
			nib := w.db.Bin(OpBAnd, w.db.Bin(OpLshr, b, w.db.Const(8, sh)), w.db.Const(8, 15))
			lt := w.db.Cmp(OpUlt, nib, w.db.Const(8, 10))
			out = append(out, w.db.Ite(lt, w.db.Bin(OpAdd, nib, w.db.Const(8, '0')), w.db.Bin(OpAdd, nib, w.db.Const(8, uint64(digits[10])-10))))
		}
	}
	return normStr(out)
}

func (w *W) sprintf(format Value, args Slice) Value {
	f, ok := format.(string)
	if !ok {
		unsupported("symbolic format string")
	}
	var parts []Value
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, f[i:])
			break
		}
		parts = append(parts, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			parts = append(parts, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			parts = append(parts, "%")
			continue
		}
		if ai >= len(args) {
			parts = append(parts, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if flags != "" && flags != "+" {
			// width/precision: only for concrete basic values
			if a.t != nil {
				switch v := a.v.(type) {
				case string:
					parts = append(parts, fmt.Sprintf("%"+flags+string(verb), v))
					continue
				case uint64:
					wd, sg := intInfo(a.t)
					if sg {
						parts = append(parts, fmt.Sprintf("%"+flags+string(verb), sx(v, wd)))
					} else {
						parts = append(parts, fmt.Sprintf("%"+flags+string(verb), v))
					}
					continue
				case float64:
					parts = append(parts, fmt.Sprintf("%"+flags+string(verb), v))
					continue
				case *Term:
					n := 0
					if _, err := fmt.Sscanf(flags, "%d", &n); err == nil && verb == 'd' && !strings.HasPrefix(flags, "0") {
						wd, sg := intInfo(a.t)
						s := w.itoa(v, wd, sg)
						if strLen(s) < n {
							s = w.strConcat(strings.Repeat(" ", n-strLen(s)), s)
						}
						parts = append(parts, s)
						continue
					}
				}
			}
			if strings.TrimLeft(flags, "+#") != "" {
				s := w.fmtArg(verb, false, a)
				n := 0
				fmt.Sscanf(strings.TrimLeft(flags, "-"), "%d", &n)
				if strLen(s) < n {
					pad := strings.Repeat(" ", n-strLen(s))
					if strings.HasPrefix(flags, "-") {
						s = w.strConcat(s, pad)
					} else {
						s = w.strConcat(pad, s)
					}
				}
				parts = append(parts, s)
				continue
			}
		}
		parts = append(parts, w.fmtArg(verb, flags == "+", a))
	}
	if ai < len(args) {
		parts = append(parts, "%!(EXTRA)")
	}
	return w.concatAll("", parts)
}

// tableTerm is an ite-chain for vals[idx].
func (w *W) tableTerm(vals []uint64, width uint8, idx *Term) *Term {
	db := w.db
	groups := map[uint64][]int{}
	var order []uint64
	for i, v := range vals {
		if _, ok := groups[v]; !ok {
			order = append(order, v)
		}
		groups[v] = append(groups[v], i)
	}
	// most frequent value is the default
	def := order[0]
	for _, v := range order {
		if len(groups[v]) > len(groups[def]) {
			def = v
		}
	}
	mk := func(v uint64) *Term {
		return db.Const(width, v)
	}
	r := mk(def)
	for _, v := range order {
		if v == def {
			continue
		}
		g := groups[v]
		c := db.ff
		for k := 0; k < len(g); {
			e := k
			for e+1 < len(g) && g[e+1] == g[e]+1 {
				e++
			}
			lo, hi := db.Const(idx.w, uint64(g[k])), db.Const(idx.w, uint64(g[e]))
			if k == e {
				c = db.Or(c, db.Eq(idx, lo))
			} else {
				c = db.Or(c, db.And(db.Cmp(OpUle, lo, idx), db.Cmp(OpUle, idx, hi)))
			}
			k = e + 1
		}
		r = db.Ite(c, mk(v), r)
	}
	return r
}

func init() {
	// ---- verification runtime ---------------------------------------------------------
	const rt = "wiki2book/verifrt."
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(w.concInt(a[1], 64))
		return w.symString(S(a[0]), n, S(a[2]))
	}, rt+"Str")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		max := int(w.concInt(a[2], 64))
		min := int(w.concInt(a[1], 64))
		k := w.choose(max - min + 1)
		w.inputs = append(w.inputs, inputRec{Name: S(a[0]) + ".len", Kind: "c", conc: k})
		return w.symString(S(a[0]), min+k, S(a[3]))
	}, rt+"StrMax")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := sx(a[1].(uint64), 64), sx(a[2].(uint64), 64)
		t := w.newVar(64)
		c := w.db.And(w.db.Cmp(OpSle, w.db.Const(64, uint64(lo)), t), w.db.Cmp(OpSle, t, w.db.Const(64, uint64(hi))))
		w.constrainVar(t, c, uint64(lo))
		w.inputs = append(w.inputs, inputRec{Name: S(a[0]), Kind: "i", terms: []*Term{t}})
		return t
	}, rt+"Int")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.newVar(0)
		w.inputs = append(w.inputs, inputRec{Name: S(a[0]), Kind: "b", terms: []*Term{t}})
		return t
	}, rt+"Bool")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		k := w.choose(int(w.concInt(a[1], 64)))
		w.inputs = append(w.inputs, inputRec{Name: S(a[0]), Kind: "c", conc: k})
		return U(k)
	}, rt+"Choice")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.curFrame = fr
		w.assume(w.asTerm(a[0], 0))
		return nil
	}, rt+"Assume")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.curFrame = fr
		msg := "assertion"
		switch m := a[1].(type) {
		case string:
			msg = m
		case *SymStr:
			msg = w.renderStr(m, w.model)
		}
		w.assertT(w.asTerm(a[0], 0), msg)
		return nil
	}, rt+"Assert")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.reached = append(w.reached, S(a[0]))
		return nil
	}, rt+"Reach")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.obs = append(w.obs, obsRec{S(a[0]), a[1]})
		return nil
	}, rt+"Observe", rt+"ObserveInt", rt+"ObserveBool")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if v, ok := w.ex.params[S(a[0])]; ok {
			return U(v)
		}
		return a[1]
	}, rt+"Param")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mapOrder = a[0].(bool)
		return nil
	}, rt+"MapOrder")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.preempt = true
		w.maxPreempt = int(w.concInt(a[0], 64))
		return nil
	}, rt+"Preempt")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.curFrame = fr
		w.yield()
		return nil
	}, rt+"Yield")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.curFrame = fr
		if g := w.pickNext(true); g != nil {
			w.switchTo(g)
		}
		return nil
	}, rt+"Settle")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.curFrame = fr
		w.pause(int(w.concInt(a[0], 64)))
		return nil
	}, rt+"Pause")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.env.allowExit = true
		return nil
	}, rt+"AllowExit")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.detectRaces()
		return nil
	}, rt+"DetectRaces")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.stepLimit = w.steps + w.concInt(a[0], 64)
		return nil
	}, rt+"StepLimit")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return true }, rt+"Symbolic")
	// Term-level disjunction/conjunction without forking
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.db.Or(w.asTerm(a[0], 0), w.asTerm(a[1], 0)))
	}, rt+"Or")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.db.And(w.asTerm(a[0], 0), w.asTerm(a[1], 0)))
	}, rt+"And")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.db.Not(w.asTerm(a[0], 0)))
	}, rt+"Not")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.db.Ite(w.asTerm(a[0], 0), w.asTerm(a[1], 64), w.asTerm(a[2], 64)))
	}, rt+"IteInt")

	// ---- strings ----------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strings.Contains(S(a[0]), S(a[1]))
		}
		return tv(w.containsT(a[0], a[1]))
	}, "strings.Contains")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.strEqT(a[0], a[1]))
	}, "internal/stringslite.Equal")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		if n < m {
			return false
		}
		return tv(w.matchAt(a[0], a[1], 0))
	}, "strings.HasPrefix", "internal/stringslite.HasPrefix")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[0]), strLen(a[1])
		if n < m {
			return false
		}
		return tv(w.matchAt(a[0], a[1], n-m))
	}, "strings.HasSuffix", "internal/stringslite.HasSuffix")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return U(strings.Index(S(a[0]), S(a[1])))
		}
		return U(w.indexStr(a[0], a[1]))
	}, "strings.Index", "internal/stringslite.Index")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return U(strings.LastIndex(S(a[0]), S(a[1])))
		}
		return U(w.lastIndexStr(a[0], a[1]))
	}, "strings.LastIndex")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		c := w.asTerm(a[1], 8)
		return U(w.indexStr(a[0], normStr([]*Term{c})))
	}, "strings.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByteString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		c := w.asTerm(a[1], 8)
		return U(w.lastIndexStr(a[0], normStr([]*Term{c})))
	}, "strings.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := w.bytesToStr(a[0].(Slice))
		return U(w.indexStr(s, normStr([]*Term{w.asTerm(a[1], 8)})))
	}, "bytes.IndexByte", "internal/bytealg.IndexByte")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := w.bytesToStr(a[0].(Slice))
		return U(w.indexStr(s, w.bytesToStr(a[1].(Slice))))
	}, "bytes.Index", "internal/bytealg.Index")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return tv(w.strEqT(w.bytesToStr(a[0].(Slice)), w.bytesToStr(a[1].(Slice))))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return U(strings.Count(S(a[0]), S(a[1])))
		}
		if strLen(a[1]) == 0 {
			return fallThru{}
		}
		n := 0
		s := a[0]
		for i := 0; i+strLen(a[1]) <= strLen(s); {
			if w.forkT(w.matchAt(s, a[1], i)) {
				n++
				i += strLen(a[1])
			} else {
				i++
			}
		}
		return U(n)
	}, "strings.Count")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		c := w.asTerm(a[1], 8)
		n := 0
		for i := 0; i < strLen(a[0]); i++ {
			if w.forkT(w.db.Eq(w.strByte(a[0], i), c)) {
				n++
			}
		}
		return U(n)
	}, "internal/bytealg.CountString")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[1].(string)
		if !ok {
			return fallThru{}
		}
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return fallThru{}
			}
		}
		r := w.db.ff
		for i := 0; i < strLen(a[0]); i++ {
			r = w.db.Or(r, w.inSet(w.strByte(a[0], i), func(c byte) bool { return strings.IndexByte(s, c) >= 0 }))
		}
		return tv(r)
	}, "strings.ContainsAny")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		c, ok := a[1].(uint64)
		if !ok || c >= 0x80 {
			return fallThru{}
		}
		return tv(w.containsT(a[0], string(rune(c))))
	}, "strings.ContainsRune")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.mapCase(a[0], true) }, "strings.ToLower")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.mapCase(a[0], false) }, "strings.ToUpper")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strings.TrimSpace(S(a[0]))
		}
		return w.trimFunc(a[0], true, true, unicode.IsSpace)
	}, "strings.TrimSpace")
	trim := func(l, r bool) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			cut, ok := a[1].(string)
			if !ok {
				return fallThru{}
			}
			return w.trimFunc(a[0], l, r, func(c rune) bool { return strings.ContainsRune(cut, c) })
		}
	}
	reg(trim(true, true), "strings.Trim")
	reg(trim(true, false), "strings.TrimLeft")
	reg(trim(false, true), "strings.TrimRight")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strings.EqualFold(S(a[0]), S(a[1]))
		}
		return tv(w.strEqT(w.mapCase(a[0], true), w.mapCase(a[1], true)))
	}, "strings.EqualFold")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strings.Replace(S(a[0]), S(a[1]), S(a[2]), I(a[3]))
		}
		if strLen(a[1]) == 0 {
			return fallThru{}
		}
		n := int(w.concInt(a[3], 64))
		return w.replace(a[0], a[1], a[2], n)
	}, "strings.Replace")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strings.ReplaceAll(S(a[0]), S(a[1]), S(a[2]))
		}
		if strLen(a[1]) == 0 {
			return fallThru{}
		}
		return w.replace(a[0], a[1], a[2], -1)
	}, "strings.ReplaceAll")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strSliceVal(strings.Split(S(a[0]), S(a[1])))
		}
		if strLen(a[1]) == 0 {
			return fallThru{}
		}
		return w.split(a[0], a[1], -1)
	}, "strings.Split")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n, ok := a[2].(uint64)
		if !ok {
			return fallThru{}
		}
		if allConc(a) {
			return strSliceVal(strings.SplitN(S(a[0]), S(a[1]), I(a[2])))
		}
		if strLen(a[1]) == 0 || int64(n) == 0 {
			return fallThru{}
		}
		return w.split(a[0], a[1], int(int64(n)))
	}, "strings.SplitN")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		el := a[0].(Slice)
		var parts []Value
		for i, e := range el {
			if i > 0 {
				parts = append(parts, a[1])
			}
			parts = append(parts, e)
		}
		return w.concatAll("", parts)
	}, "strings.Join")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(w.concInt(a[1], 64))
		if n < 0 {
			panic(w.runtimeErr("strings: negative Repeat count"))
		}
		var parts []Value
		for i := 0; i < n; i++ {
			parts = append(parts, a[0])
		}
		return w.concatAll("", parts)
	}, "strings.Repeat")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if allConc(a) {
			return strSliceVal(strings.Fields(S(a[0])))
		}
		s := a[0]
		var out Slice
		start := -1
		w.asciiOnly(s)
		s = w.reconc(s)
		for i := 0; i < strLen(s); i++ {
			if w.forkT(w.inSet(w.strByte(s, i), isSpaceASCII)) {
				if start >= 0 {
					out = append(out, strSlice(s, start, i))
					start = -1
				}
			} else if start < 0 {
				start = i
			}
		}
		if start >= 0 {
			out = append(out, strSlice(s, start, strLen(s)))
		}
		if out == nil {
			out = Slice{}
		}
		return out
	}, "strings.Fields")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return nil }, "(*strings.Builder).copyCheck")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(w.concInt(a[0], 64))
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}, "internal/bytealg.MakeNoZero")

	// ---- strconv, utf8, unicode ----------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.itoa(a[0], 64, true) }, "strconv.Itoa")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if c, ok := a[1].(uint64); ok && c == 10 {
			return w.itoa(a[0], 64, true)
		}
		return fallThru{}
	}, "strconv.FormatInt")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return U(utf8.RuneCountInString(s))
		}
		return fallThru{}
	}, "unicode/utf8.RuneCountInString")
	uni := func(f func(rune) bool) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			if c, ok := a[0].(uint64); ok {
				return f(rune(sx(c, 32)))
			}
			return fallThru{}
		}
	}
	reg(uni(unicode.IsLetter), "unicode.IsLetter")
	reg(uni(unicode.IsNumber), "unicode.IsNumber")
	reg(uni(unicode.IsSpace), "unicode.IsSpace")
	reg(uni(unicode.IsUpper), "unicode.IsUpper")
	reg(uni(unicode.IsLower), "unicode.IsLower")
	reg(uni(unicode.IsDigit), "unicode.IsDigit")
	reg(uni(unicode.IsPunct), "unicode.IsPunct")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(uint64); ok {
			return uint64(uint32(unicode.ToUpper(rune(sx(c, 32)))))
		}
		return fallThru{}
	}, "unicode.ToUpper")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if c, ok := a[0].(uint64); ok {
			return uint64(uint32(unicode.ToLower(rune(sx(c, 32)))))
		}
		return fallThru{}
	}, "unicode.ToLower")

	// ---- fmt ----------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		sl, _ := a[1].(Slice)
		w.curFrame = fr
		return w.sprintf(a[0], sl)
	}, "fmt.Sprintf")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{uint64(0), nilErr} }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		sl, _ := a[2].(Slice)
		s := w.sprintf(a[1], sl)
		itf := a[0].(Iface)
		return w.writeTo(fr, itf, s)
	}, "fmt.Fprintf")

	// ---- errors (github.com/pkg/errors) ---------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return (*Value)(nil) }, "github.com/pkg/errors.callers")

	// ---- runtime, os, sync ----------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return U(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return nil }, "runtime.GC", "runtime.KeepAlive", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.doExit(fr, "process exit via os.Exit")
	}, "os.Exit")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mutexLock(a[0].(*Value), false)
		return nil
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mutexUnlock(a[0].(*Value))
		return nil
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mutexLock(a[0].(*Value), true)
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mutexRUnlock(a[0].(*Value))
		return nil
	}, "(*sync.RWMutex).RUnlock")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		w.yield()
		if w.env.mutex[p] != 0 {
			return false
		}
		w.env.mutex[p] = -1
		w.acquire(p)
		return true
	}, "(*sync.Mutex).TryLock")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		w.env.wg[p] += int(w.concInt(a[1], 64))
		if w.env.wg[p] < 0 {
			panic(w.goPanicStr("sync: negative WaitGroup counter"))
		}
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		w.release(p)
		w.env.wg[p]--
		if w.env.wg[p] < 0 {
			panic(w.goPanicStr("sync: negative WaitGroup counter"))
		}
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		w.env.wg[p]++
		w.spawn(&Native{name: "wg.Go", f: func(w *W, fr *frame, _ []Value) Value {
			w.call(fr, a[1], nil)
			w.release(p)
			w.env.wg[p]--
			return nil
		}}, nil)
		return nil
	}, "(*sync.WaitGroup).Go")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		w.yield()
		env := w.env
		w.block(func() bool { return env.wg[p] == 0 })
		w.acquire(p)
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if w.env.once[p] {
			w.acquire(p)
			return nil
		}
		w.env.once[p] = true
		w.call(fr, a[1], nil)
		w.release(p)
		return nil
	}, "(*sync.Once).Do")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		nf := st[len(st)-1]
		if isNilV(nf) {
			return Iface{}
		}
		return w.call(fr, nf, nil)
	}, "(*sync.Pool).Get")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return nil }, "(*sync.Pool).Put")

	// ---- hashing: concrete hash for concrete data, an injective stand-in for symbolic data -----
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := w.bytesToStr(a[0].(Slice))
		h := w.idealHash("md5", s, 16)
		r := make(Array, 16)
		for i := range r {
			r[i] = uint64(h[i])
		}
		return r
	}, "crypto/md5.Sum")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := w.bytesToStr(a[0].(Slice))
		h := w.idealHash("sha1", s, 20)
		r := make(Array, 20)
		for i := range r {
			r[i] = uint64(h[i])
		}
		return r
	}, "crypto/sha1.Sum")

	// ---- sort -----------------------------------------------------------------------------------
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Iface).v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := w.call(fr, a[1], []Value{U(j), U(j - 1)})
				if !w.forkT(w.asTerm(r, 0)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				w.setCell(&s[j], y)
				w.setCell(&s[j-1], x)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")

	// ---- paths (concrete fast path; symbolic paths run the real code) -------------------------------
	conc1 := func(f func(string) string) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return f(s)
			}
			return fallThru{}
		}
	}
	reg(conc1(filepath.Clean), "path/filepath.Clean", "internal/filepathlite.Clean", "path.Clean")
	reg(conc1(filepath.Base), "path/filepath.Base")
	reg(conc1(filepath.Dir), "path/filepath.Dir")
	reg(conc1(filepath.Ext), "path/filepath.Ext")
}

func (w *W) idealHash(kind string, s Value, n int) []byte {
	if c, ok := s.(string); ok {
		// equal to an earlier symbolic input?
		for _, e := range w.env.hashes {
			if e.kind == kind && e.sym && w.forkT(w.strEqT(e.s, s)) {
				return e.h
			}
		}
		var h []byte
		if kind == "md5" {
			x := md5.Sum([]byte(c))
			h = x[:]
		} else {
			x := sha1.Sum([]byte(c))
			h = x[:]
		}
		w.env.hashes = append(w.env.hashes, hashEnt{kind, s, h, false})
		return h
	}
	for _, e := range w.env.hashes {
		if e.kind == kind && w.forkT(w.strEqT(e.s, s)) {
			return e.h
		}
	}
	h := sha1.Sum([]byte(fmt.Sprintf("%s#sym%d", kind, len(w.env.hashes))))
	w.env.hashes = append(w.env.hashes, hashEnt{kind, s, h[:n], true})
	return h[:n]
}

func (w *W) writeMethod(itf Iface) Value {
	w.sh.lookMu.Lock()
	defer w.sh.lookMu.Unlock()
	sel := w.prog.MethodSets.MethodSet(itf.t).Lookup(nil, "Write")
	if sel == nil {
		unsupported("no Write on %s", itf.t)
	}
	return w.prog.MethodValue(sel)
}

func (w *W) replace(s, old, nw Value, n int) Value {
	var parts []Value
	m := strLen(old)
	start := 0
	for i := 0; i+m <= strLen(s) && n != 0; {
		if w.forkT(w.matchAt(s, old, i)) {
			parts = append(parts, strSlice(s, start, i), nw)
			i += m
			start = i
			n--
		} else {
			i++
		}
	}
	if len(parts) == 0 {
		return s
	}
	parts = append(parts, strSlice(s, start, strLen(s)))
	return w.concatAll("", parts)
}

func (w *W) split(s, sep Value, n int) Value {
	var out Slice
	m := strLen(sep)
	start := 0
	for i := 0; i+m <= strLen(s); {
		if n > 0 && len(out) == n-1 {
			break
		}
		if w.forkT(w.matchAt(s, sep, i)) {
			out = append(out, strSlice(s, start, i))
			i += m
			start = i
		} else {
			i++
		}
	}
	out = append(out, strSlice(s, start, strLen(s)))
	return out[:len(out):len(out)]
}

// symString makes a symbolic string of n bytes over the alphabet ("" = any byte).
func (w *W) symString(name string, n int, alphabet string) Value {
	b := make([]*Term, n)
	var inAlpha [256]bool
	for i := 0; i < len(alphabet); i++ {
		inAlpha[alphabet[i]] = true
	}
	for i := range b {
		t := w.newVar(8)
		if alphabet != "" {
			c := w.inSet(t, func(c byte) bool { return inAlpha[c] })
			w.constrainVar(t, c, uint64(alphabet[0]))
		}
		b[i] = t
	}
	w.inputs = append(w.inputs, inputRec{Name: name, Kind: "s", terms: b})
	if n == 0 {
		return ""
	}
	return &SymStr{b}
}

// ---- mutexes -------------------------------------------------------------------------------------

func (w *W) mutexLock(p *Value, read bool) {
	w.yield()
	env := w.env
	if read {
		w.block(func() bool { return env.mutex[p] >= 0 })
		env.mutex[p]++
		w.acquire(p)
		return
	}
	w.block(func() bool { return env.mutex[p] == 0 })
	env.mutex[p] = -1
	w.acquire(p)
}

func (w *W) mutexUnlock(p *Value) {
	if w.env.mutex[p] != -1 {
		panic(pathEnd{"exit", "fatal error: sync: unlock of unlocked mutex\n" + w.stackOf(w.curFrame)})
	}
	w.release(p)
	w.env.mutex[p] = 0
	w.yield()
}

func (w *W) mutexRUnlock(p *Value) {
	w.release(p)
	w.env.mutex[p]--
	w.yield()
}

// envState is the per-path environment.
type envState struct {
	allowExit bool
	mutex     map[*Value]int
	wg        map[*Value]int
	once      map[*Value]bool
	hashes    []hashEnt
}

type hashEnt struct {
	kind string
	s    Value
	h    []byte
	sym  bool
}

func newEnvState() *envState {
	return &envState{mutex: map[*Value]int{}, wg: map[*Value]int{}, once: map[*Value]bool{}}
}
