package main

// Hash-consed SMT terms. One termDB per worker, so no locking is needed.

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // low bits: c = low index, width = w
	// floating point (width wF64)
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpFFromS // signed bv -> f64
	OpFFromU
	OpFToS // f64 -> signed bv (truncate)
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq"}

const wF64 = 100

type Term struct {
	op      Op
	w       uint8 // 0 bool, 1..64 bit-vector, wF64 float
	id      int32
	c       uint64 // constant value / var index / extract low bit
	x, y, z *Term
	vars    []int32 // sorted variable indices
	evGen   int64
	evVal   uint64
	emitted int32 // solver generation in which it was defined
}

type termKey struct {
	op      Op
	w       uint8
	c       uint64
	x, y, z int32
}

type termDB struct {
	tab    map[termKey]*Term
	next   int32
	vars   []*Term // by index
	tt, ff *Term
	bytes  [256]*Term
	domMem map[int32]*[4]uint64
	gen    int64
	trunc  map[*Term]*Term // integer part of floating-point terms
}

func newTermDB() *termDB {
	db := &termDB{tab: map[termKey]*Term{}, domMem: map[int32]*[4]uint64{}}
	db.tt = db.Const(0, 1)
	db.ff = db.Const(0, 0)
	for i := range db.bytes {
		db.bytes[i] = db.Const(8, uint64(i))
	}
	return db
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func idOf(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// fast path: subset
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func (db *termDB) mk(op Op, w uint8, c uint64, x, y, z *Term) *Term {
	k := termKey{op, w, c, idOf(x), idOf(y), idOf(z)}
	if t, ok := db.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, x: x, y: y, z: z, id: db.next}
	db.next++
	if op == OpVar {
		t.vars = []int32{int32(c)}
	} else if x != nil {
		v := x.vars
		if y != nil {
			v = mergeVars(v, y.vars)
		}
		if z != nil {
			v = mergeVars(v, z.vars)
		}
		t.vars = v
	}
	db.tab[k] = t
	return t
}

func (db *termDB) Const(w uint8, v uint64) *Term {
	if w != wF64 {
		v &= maskW(w)
	}
	return db.mk(OpConst, w, v, nil, nil, nil)
}

func (db *termDB) Bool(b bool) *Term {
	if b {
		return db.tt
	}
	return db.ff
}

// Var returns variable number idx of the given width (same index+width -> same term).
func (db *termDB) Var(idx int, w uint8) *Term {
	return db.mk(OpVar, w, uint64(idx), nil, nil, nil)
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }

func (db *termDB) Not(x *Term) *Term {
	if x.isConst() {
		return db.Bool(x.c == 0)
	}
	if x.op == OpNot {
		return x.x
	}
	return db.mk(OpNot, 0, 0, x, nil, nil)
}

func (db *termDB) And(x, y *Term) *Term {
	if x.isConst() {
		if x.c == 0 {
			return x
		}
		return y
	}
	if y.isConst() {
		if y.c == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if x.op == OpNot && x.x == y || y.op == OpNot && y.x == x {
		return db.ff
	}
	return db.mk(OpAnd, 0, 0, x, y, nil)
}

func (db *termDB) Or(x, y *Term) *Term {
	if x.isConst() {
		if x.c == 1 {
			return x
		}
		return y
	}
	if y.isConst() {
		if y.c == 1 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if x.op == OpNot && x.x == y || y.op == OpNot && y.x == x {
		return db.tt
	}
	return db.mk(OpOr, 0, 0, x, y, nil)
}

func (db *termDB) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.c == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return db.Not(c)
		}
		if x.isTrue() {
			return db.Or(c, y)
		}
		if x.isFalse() {
			return db.And(db.Not(c), y)
		}
		if y.isTrue() {
			return db.Or(db.Not(c), x)
		}
		if y.isFalse() {
			return db.And(c, x)
		}
	}
	return db.mk(OpIte, x.w, 0, c, x, y)
}

func (db *termDB) Eq(x, y *Term) *Term {
	if x == y && x.w != wF64 {
		return db.tt
	}
	if x.isConst() && y.isConst() {
		return db.Bool(x.c == y.c)
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.c == 1 {
				return x
			}
			return db.Not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		// zext(a)==c
		if x.op == OpZext {
			if y.c > maskW(x.x.w) {
				return db.ff
			}
			return db.Eq(x.x, db.Const(x.x.w, y.c))
		}
		if x.op == OpSext {
			if uint64(sx(y.c&maskW(x.x.w), x.x.w))&maskW(x.w) != y.c {
				return db.ff
			}
			return db.Eq(x.x, db.Const(x.x.w, y.c))
		}
		if x.op == OpIte && (x.y.isConst() || x.z.isConst()) {
			return db.Ite(x.x, db.Eq(x.y, y), db.Eq(x.z, y))
		}
		if x.op == OpAdd && x.y.isConst() {
			return db.Eq(x.x, db.Const(x.w, y.c-x.y.c))
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return db.mk(OpEq, 0, 0, x, y, nil)
}

func (db *termDB) Cmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		var r bool
		switch op {
		case OpUlt:
			r = x.c < y.c
		case OpUle:
			r = x.c <= y.c
		case OpSlt:
			r = sx(x.c, x.w) < sx(y.c, y.w)
		case OpSle:
			r = sx(x.c, x.w) <= sx(y.c, y.w)
		}
		return db.Bool(r)
	}
	if x == y {
		return db.Bool(op == OpUle || op == OpSle)
	}
	// narrow zero extended operands
	zx := func(t *Term) (*Term, bool) {
		if t.op == OpZext {
			return t.x, true
		}
		return nil, false
	}
	if a, ok := zx(x); ok {
		if y.isConst() {
			sy := sx(y.c, y.w)
			if op == OpSlt || op == OpSle {
				if sy < 0 {
					return db.ff
				}
			}
			if y.c > maskW(a.w) {
				return db.tt
			}
			o := OpUlt
			if op == OpUle || op == OpSle {
				o = OpUle
			}
			return db.Cmp(o, a, db.Const(a.w, y.c))
		}
		if b, ok := zx(y); ok && b.w == a.w {
			o := OpUlt
			if op == OpUle || op == OpSle {
				o = OpUle
			}
			return db.Cmp(o, a, b)
		}
	}
	if b, ok := zx(y); ok && x.isConst() {
		sxv := sx(x.c, x.w)
		if op == OpSlt || op == OpSle {
			if sxv < 0 {
				return db.tt
			}
		}
		if x.c > maskW(b.w) {
			return db.ff
		}
		o := OpUlt
		if op == OpUle || op == OpSle {
			o = OpUle
		}
		return db.Cmp(o, db.Const(b.w, x.c), b)
	}
	if op == OpUlt && y.isConst() && y.c == 0 {
		return db.ff
	}
	if op == OpUle && x.isConst() && x.c == 0 {
		return db.tt
	}
	if op == OpUle && y.isConst() && y.c == maskW(y.w) {
		return db.tt
	}
	if (x.isConst() || y.isConst()) && (x.op == OpIte || y.op == OpIte) {
		if x.op == OpIte && x.y.isConst() && x.z.isConst() {
			return db.Ite(x.x, db.Cmp(op, x.y, y), db.Cmp(op, x.z, y))
		}
		if y.op == OpIte && y.y.isConst() && y.z.isConst() {
			return db.Ite(y.x, db.Cmp(op, x, y.y), db.Cmp(op, x, y.z))
		}
	}
	return db.mk(op, 0, 0, x, y, nil)
}

func foldBin(op Op, w uint8, a, b uint64) uint64 {
	m := maskW(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("foldBin")
}

func (db *termDB) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() {
		return db.Const(w, foldBin(op, w, x.c, y.c))
	}
	switch op {
	case OpAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.c == 0 {
				return x
			}
			if x.op == OpAdd && x.y.isConst() {
				return db.Bin(OpAdd, x.x, db.Const(w, x.y.c+y.c))
			}
		}
	case OpSub:
		if y.isConst() {
			return db.Bin(OpAdd, x, db.Const(w, -y.c))
		}
		if x == y {
			return db.Const(w, 0)
		}
	case OpMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.c == 0 {
				return y
			}
			if y.c == 1 {
				return x
			}
		}
	case OpUdiv, OpSdiv:
		if y.isConst() && y.c == 1 {
			return x
		}
	case OpBAnd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.c == 0 {
				return y
			}
			if y.c == maskW(w) {
				return x
			}
		}
		if x == y {
			return x
		}
	case OpBOr, OpBXor:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.c == 0 {
			return x
		}
	case OpShl, OpLshr, OpAshr:
		if y.isConst() && y.c == 0 {
			return x
		}
	}
	return db.mk(op, w, 0, x, y, nil)
}

func (db *termDB) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return db.Const(w, x.c)
	}
	if x.op == OpZext {
		return db.Zext(x.x, w)
	}
	return db.mk(OpZext, w, 0, x, nil, nil)
}

func (db *termDB) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return db.Const(w, uint64(sx(x.c, x.w)))
	}
	if x.op == OpZext {
		return db.Zext(x.x, w)
	}
	if x.op == OpSext {
		return db.Sext(x.x, w)
	}
	return db.mk(OpSext, w, 0, x, nil, nil)
}

func (db *termDB) Trunc(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return db.Const(w, x.c)
	}
	if x.op == OpZext || x.op == OpSext {
		if x.x.w == w {
			return x.x
		}
		if x.x.w > w {
			return db.Trunc(x.x, w)
		}
		if x.op == OpZext {
			return db.Zext(x.x, w)
		}
		return db.Sext(x.x, w)
	}
	if x.op == OpIte {
		return db.Ite(x.x, db.Trunc(x.y, w), db.Trunc(x.z, w))
	}
	if x.op == OpAdd && x.y.isConst() {
		return db.Bin(OpAdd, db.Trunc(x.x, w), db.Trunc(x.y, w))
	}
	return db.mk(OpExtract, w, 0, x, nil, nil)
}

// resize as Go integer conversion
func (db *termDB) Resize(x *Term, w uint8, signedSrc bool) *Term {
	if w < x.w {
		return db.Trunc(x, w)
	}
	if signedSrc {
		return db.Sext(x, w)
	}
	return db.Zext(x, w)
}

func (db *termDB) F(op Op, x, y *Term) *Term {
	w := uint8(wF64)
	if op == OpFLt || op == OpFLe || op == OpFEq {
		w = 0
	}
	if x.isConst() && y.isConst() {
		return db.Const(w, foldF(op, x.c, y.c))
	}
	return db.mk(op, w, 0, x, y, nil)
}

func foldF(op Op, x, y uint64) uint64 {
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	bo := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OpFAdd:
		return math.Float64bits(a + b)
	case OpFSub:
		return math.Float64bits(a - b)
	case OpFMul:
		return math.Float64bits(a * b)
	case OpFDiv:
		return math.Float64bits(a / b)
	case OpFLt:
		return bo(a < b)
	case OpFLe:
		return bo(a <= b)
	case OpFEq:
		return bo(a == b)
	}
	panic("foldF")
}

func (db *termDB) FFrom(x *Term, signed bool) *Term {
	op := OpFFromS
	if !signed {
		op = OpFFromU
	}
	if x.isConst() {
		return db.Const(wF64, evFFrom(op, x.w, x.c))
	}
	return db.mk(op, wF64, 0, x, nil, nil)
}

func evFFrom(op Op, w uint8, c uint64) uint64 {
	if op == OpFFromS {
		return math.Float64bits(float64(sx(c, w)))
	}
	return math.Float64bits(float64(c))
}

func (db *termDB) FToS(x *Term, w uint8) *Term {
	if x.isConst() {
		return db.Const(w, uint64(int64(math.Float64frombits(x.c))))
	}
	if q := db.trunc[x]; q != nil {
		return db.Resize(q, w, true)
	}
	return db.mk(OpFToS, w, 0, x, nil, nil)
}

// Eval evaluates t under the model (indexed by variable number).
func (db *termDB) newEval() { db.gen++ }

func (db *termDB) ev(t *Term, model []uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		if int(t.c) < len(model) {
			return model[t.c] & maskW2(t.w)
		}
		return 0
	}
	if t.evGen == db.gen {
		return t.evVal
	}
	var r uint64
	bo := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = db.ev(t.x, model) ^ 1
	case OpAnd:
		r = db.ev(t.x, model)
		if r == 1 {
			r = db.ev(t.y, model)
		}
	case OpOr:
		r = db.ev(t.x, model)
		if r == 0 {
			r = db.ev(t.y, model)
		}
	case OpIte:
		if db.ev(t.x, model) == 1 {
			r = db.ev(t.y, model)
		} else {
			r = db.ev(t.z, model)
		}
	case OpEq:
		r = bo(db.ev(t.x, model) == db.ev(t.y, model))
	case OpUlt:
		r = bo(db.ev(t.x, model) < db.ev(t.y, model))
	case OpUle:
		r = bo(db.ev(t.x, model) <= db.ev(t.y, model))
	case OpSlt:
		r = bo(sx(db.ev(t.x, model), t.x.w) < sx(db.ev(t.y, model), t.x.w))
	case OpSle:
		r = bo(sx(db.ev(t.x, model), t.x.w) <= sx(db.ev(t.y, model), t.x.w))
	case OpZext:
		r = db.ev(t.x, model)
	case OpSext:
		r = uint64(sx(db.ev(t.x, model), t.x.w)) & maskW(t.w)
	case OpExtract:
		r = (db.ev(t.x, model) >> t.c) & maskW(t.w)
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFLt, OpFLe, OpFEq:
		r = foldF(t.op, db.ev(t.x, model), db.ev(t.y, model))
	case OpFFromS, OpFFromU:
		r = evFFrom(t.op, t.x.w, db.ev(t.x, model))
	case OpFToS:
		r = uint64(int64(math.Float64frombits(db.ev(t.x, model)))) & maskW(t.w)
	default:
		r = foldBin(t.op, t.w, db.ev(t.x, model), db.ev(t.y, model))
	}
	t.evGen = db.gen
	t.evVal = r
	return r
}

func maskW2(w uint8) uint64 {
	if w == wF64 {
		return ^uint64(0)
	}
	return maskW(w)
}

// byteDomain returns the set of values of t's only variable (8 bit) satisfying t.
func (db *termDB) byteDomain(t *Term) *[4]uint64 {
	if d, ok := db.domMem[t.id]; ok {
		return d
	}
	v := t.vars[0]
	model := make([]uint64, v+1)
	d := new([4]uint64)
	for i := 0; i < 256; i++ {
		model[v] = uint64(i)
		db.gen++
		if db.ev(t, model) == 1 {
			d[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	db.domMem[t.id] = d
	return d
}

func domCount(d *[4]uint64) int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}

func domFirst(d *[4]uint64) int {
	for i, x := range d {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

func domHas(d *[4]uint64, v uint64) bool { return d[v>>6]&(1<<(v&63)) != 0 }

// SMT-LIB rendering --------------------------------------------------------

func sortName(w uint8) string {
	switch {
	case w == 0:
		return "Bool"
	case w == wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constSMT(w uint8, c uint64) string {
	switch {
	case w == 0:
		if c == 1 {
			return "true"
		}
		return "false"
	case w == wF64:
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", c>>63, (c>>52)&0x7ff, c&((1<<52)-1))
	case w%4 == 0:
		return fmt.Sprintf("#x%0*x", int(w/4), c)
	}
	return fmt.Sprintf("#b%0*b", int(w), c)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constSMT(t.w, t.c)
	case OpVar:
		return fmt.Sprintf("v%d_%d", t.c, t.w)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (t *Term) body() string {
	switch t.op {
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.x.w, t.x.ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.x.w, t.x.ref())
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.c)+int(t.w)-1, t.c, t.x.ref())
	case OpFFromS:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", t.x.ref())
	case OpFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", t.x.ref())
	case OpFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, t.x.ref())
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.op])
	for _, a := range []*Term{t.x, t.y, t.z} {
		if a != nil {
			sb.WriteString(" ")
			sb.WriteString(a.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// emit writes the definitions needed for t which the solver instance (gen) has not got yet.
func (t *Term) emit(sb *strings.Builder, gen int32) {
	if t.op == OpConst || t.emitted == gen {
		return
	}
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		t.emitted = gen
		return
	}
	for _, a := range []*Term{t.x, t.y, t.z} {
		if a != nil {
			a.emit(sb, gen)
		}
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.ref(), sortName(t.w), t.body())
	t.emitted = gen
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	if t.op == OpConst || t.op == OpVar {
		return t.ref()
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	if s == "(" {
		s = fmt.Sprintf("(op%d", t.op)
	}
	for _, a := range []*Term{t.x, t.y, t.z} {
		if a != nil {
			s += " " + a.str(d-1)
		}
	}
	return s + ")"
}
