package main

import (
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Durations between whole seconds: the floating-point and division chains of package time are
// replaced by integer terms of the seconds, after the solver has shown that nothing overflows.

const nanos = 1000000000

// wholeSeconds returns the number of seconds of a duration that is a multiple of a second.
func (w *W) wholeSeconds(v Value) (*Term, bool) {
	d, ok := v.(*Term)
	if !ok || d.op != OpMul || d.w != 64 {
		return nil, false
	}
	x, c := d.x, d.y
	if x.isConst() {
		x, c = c, x
	}
	if !c.isConst() || int64(c.c) <= 0 || int64(c.c)%nanos != 0 {
		return nil, false
	}
	k := int64(c.c) / nanos
	if !w.bounded(x, 9000000000/k) {
		return nil, false
	}
	if k == 1 {
		return x, true
	}
	return w.db.Bin(OpMul, x, w.db.Const(64, uint64(k))), true
}

// secondsOf divides two durations by a second if both are multiples of it.
func (w *W) secondsOf(a, b *Term) (*Term, *Term, bool) {
	if a.op != OpMul && b.op != OpMul {
		return nil, nil, false
	}
	sec := func(t *Term) (*Term, bool) {
		if t.isConst() {
			return w.db.Const(64, uint64(int64(t.c)/nanos)), int64(t.c)%nanos == 0 && t.c != 0
		}
		return w.wholeSeconds(t)
	}
	x, ok := sec(a)
	if !ok {
		return nil, nil, false
	}
	y, ok := sec(b)
	return x, y, ok
}

// bounded tells whether -lim <= x <= lim holds on the current path.
func (w *W) bounded(x *Term, lim int64) bool {
	db := w.db
	out := db.Or(db.Cmp(OpSlt, x, db.Const(64, uint64(-lim))), db.Cmp(OpSlt, db.Const(64, uint64(lim)), x))
	r, _ := w.feasible(out)
	return r == unsat
}

// secTerm is the absolute second of a time without monotonic clock and fraction.
func secTerm(v Value) (*Term, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) != 3 {
		return nil, false
	}
	if wall, ok := s[0].(uint64); !ok || wall != 0 {
		return nil, false
	}
	switch e := s[1].(type) {
	case *Term:
		return e, true
	}
	return nil, false
}

func init() {
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		db := w.db
		sec := func(v Value) (*Term, bool) {
			if t, ok := secTerm(v); ok {
				return t, true
			}
			s, ok := v.(Struct)
			if ok && len(s) == 3 {
				if wall, ok := s[0].(uint64); ok && wall == 0 {
					if e, ok := s[1].(uint64); ok {
						return db.Const(64, e), true
					}
				}
			}
			return nil, false
		}
		x, ok1 := sec(a[0])
		y, ok2 := sec(a[1])
		if !ok1 || !ok2 || x.isConst() && y.isConst() {
			return fallThru{}
		}
		w.curFrame = fr
		// both far away from an overflow of the difference
		d := db.Bin(OpSub, x, y)
		if !w.bounded(x, 1<<60) || !w.bounded(y, 1<<60) || !w.bounded(d, 9000000000) {
			return fallThru{}
		}
		return tv(db.Bin(OpMul, d, db.Const(64, nanos)))
	}, "(time.Time).Sub")
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Struct)
		layout, ok2 := a[1].(string)
		if ok && ok2 && len(s) == 3 {
			wall, ok := s[0].(uint64)
			ext, ok2 := s[1].(uint64)
			if ok && ok2 && wall>>63 == 0 { // seconds since year 1
				return time.Unix(int64(ext)-62135596800, int64(wall&(1<<30-1))).UTC().Format(layout)
			}
		}
		return fallThru{}
	}, "(time.Time).Format")
	unit := func(name string, secs int64) {
		reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			w.curFrame = fr
			x, ok := w.wholeSeconds(a[0])
			if !ok {
				return fallThru{}
			}
			// the expression of package time; its integer part is exact because the fraction is a
			// multiple of 1/3600 and the quotient is far below 2^52
			db := w.db
			n := db.Const(64, uint64(secs))
			q := db.Bin(OpSdiv, x, n)
			r := db.Bin(OpMul, db.Bin(OpSrem, x, n), db.Const(64, nanos))
			t := db.F(OpFAdd, db.FFrom(q, true), db.F(OpFDiv, db.FFrom(r, true), db.Const(wF64, bitsOf(float64(secs)*nanos))))
			if db.trunc == nil {
				db.trunc = map[*Term]*Term{}
			}
			db.trunc[t] = q
			return tv(t)
		}, "(time.Duration)."+name)
	}
	unit("Minutes", 60)
	unit("Hours", 3600)
	unit("Seconds", 1)
}

func init() {
	reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if e, ok := a[0].(uint64); ok {
			return syscall.Errno(e).Error()
		}
		return fallThru{}
	}, "(syscall.Errno).Error")
}
