package main

// Cooperative goroutines: exactly one runs at a time (baton passing); at every synchronisation
// operation the scheduler may switch, which is a decision of the path.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id      int
	baton   chan bool // true: run, false: die
	ready   func() bool
	done    bool
	started bool
	wake    int // sleeps until this time
	vc      vclock
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// clocks of the values in buf and of the receive operations (while data races are looked for)
	clocks  []vclock
	recvd   []vclock
	total   int
	closing vclock
	// unbuffered hand-over
	sent  int
	recvs []*receiver // blocked receivers
}

// receiver is a goroutine blocked in a receive operation; gone if it is not any more, or if a value is on its way.
type receiver struct {
	gone bool
	vc   vclock
}

// waiting tells whether a receiver waits for a value nobody sends yet.
func (c *Chan) waiting() bool {
	for _, r := range c.recvs {
		if !r.gone {
			return len(c.buf) == 0
		}
	}
	return false
}

func (w *W) takeReceiver(c *Chan) {
	for _, r := range c.recvs {
		if !r.gone {
			r.gone = true
			if w.race != nil {
				w.acquireClock(r.vc)
			}
			return
		}
	}
}

func (w *W) resetSched() {
	w.gors = []*gor{{id: 0, started: true}}
	w.gcur = w.gors[0]
	w.gabort = nil
	w.vnow = 0
}

// pause lets the others run until all of them wait: the time of the symbolic world only passes then.
func (w *W) pause(n int) {
	g := w.gcur
	g.wake = w.vnow + n
	g.ready = func() bool { return w.vnow >= g.wake }
	for !g.ready() {
		if o := w.pickReady(true); o != nil {
			w.switchTo(o)
		} else if !w.advance() {
			break
		}
	}
	g.ready, g.wake = nil, 0
}

// advance moves the time to the point at which the next goroutine wakes up.
func (w *W) advance() bool {
	next := -1
	for _, g := range w.gors {
		if !g.done && g.wake > w.vnow && (next < 0 || g.wake < next) {
			next = g.wake
		}
	}
	if next < 0 {
		return false
	}
	w.vnow = next
	return true
}

func (w *W) spawn(fv Value, args []Value) {
	g := &gor{id: len(w.gors), baton: make(chan bool)}
	if w.race != nil {
		g.vc = w.snapshot()
	}
	w.gors = append(w.gors, g)
	mainFrame := (*frame)(nil)
	go func() {
		if !<-g.baton {
			g.done = true
			w.killed <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			if pe, ok := r.(pathEnd); ok && pe.kind == "killed" {
				g.done = true
				w.killed <- struct{}{}
				return
			}
			g.done = true
			if r != nil {
				// uncaught panic or path end: abort the whole path in the main goroutine
				w.gabort = r
				w.gcur = w.gors[0]
				w.gors[0].baton <- true
				return
			}
			if os := w.pickNext(true); os != nil {
				w.gcur = os
				os.baton <- true
			} else {
				w.gabort = pathEnd{"deadlock", "all goroutines are asleep"}
				w.gcur = w.gors[0]
				w.gors[0].baton <- true
			}
		}()
		g.started = true
		w.call(mainFrame, fv, args)
	}()
	if w.preempt {
		w.yield()
	}
}

// pickNext chooses a runnable goroutine other than a finished one.
func (w *W) pickNext(excludeCur bool) *gor {
	for {
		g := w.pickReady(excludeCur)
		if g != nil || !w.advance() {
			return g
		}
	}
}

func (w *W) pickReady(excludeCur bool) *gor {
	var c []*gor
	for _, g := range w.gors {
		if g.done || excludeCur && g == w.gcur {
			continue
		}
		if g.ready == nil || g.ready() {
			c = append(c, g)
		}
	}
	if len(c) == 0 {
		return nil
	}
	if len(c) == 1 || w.maxPreempt < 0 {
		return c[0]
	}
	return c[w.choose(len(c))]
}

func (w *W) switchTo(g *gor) {
	if g == w.gcur {
		return
	}
	me := w.gcur
	if me.baton == nil {
		me.baton = make(chan bool)
	}
	w.gcur = g
	saved := w.curFrame
	g.baton <- true
	if !<-me.baton {
		panic(pathEnd{"killed", ""})
	}
	w.gcur = me
	w.curFrame = saved
	if me.id == 0 && w.gabort != nil {
		panic(w.gabort)
	}
}

// yield is a scheduling point at which the current goroutine could continue.
func (w *W) yield() {
	if len(w.gors) == 1 || w.inInit {
		return
	}
	n := 0
	for _, g := range w.gors {
		if !g.done {
			n++
		}
	}
	if n < 2 || w.preemptions >= w.maxPreempt {
		return
	}
	g := w.pickNextPreempt()
	if g != nil && g != w.gcur {
		w.preemptions++
		w.switchTo(g)
	}
}

func (w *W) pickNextPreempt() *gor {
	c := []*gor{w.gcur}
	for _, g := range w.gors {
		if g.done || g == w.gcur {
			continue
		}
		if g.ready == nil || g.ready() {
			c = append(c, g)
		}
	}
	if len(c) == 1 {
		return c[0]
	}
	return c[w.choose(len(c))]
}

// block waits until cond holds.
func (w *W) block(cond func() bool) {
	for !cond() {
		w.gcur.ready = cond
		g := w.pickNext(true)
		if g == nil {
			panic(pathEnd{"deadlock", "all goroutines are asleep\n" + w.stackOf(w.curFrame)})
		}
		w.switchTo(g)
		w.gcur.ready = nil
	}
	w.gcur.ready = nil
}

// killAll terminates the goroutines left over at the end of a path.
func (w *W) killAll() {
	for _, g := range w.gors[1:] {
		if !g.done {
			g.baton <- false
			<-w.killed
		}
	}
}

func (w *W) chanSend(c *Chan, v Value) {
	if c == nil {
		w.block(func() bool { return false })
	}
	w.yield()
	if c.closed {
		panic(w.goPanicStr("send on closed channel"))
	}
	if c.cap > 0 {
		w.block(func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			panic(w.goPanicStr("send on closed channel"))
		}
		w.raceSend(c)
		c.buf = append(c.buf, copyVal(v))
		return
	}
	// unbuffered: put the value and wait until it has been taken
	w.block(func() bool { return c.closed || len(c.buf) == 0 })
	if c.closed {
		panic(w.goPanicStr("send on closed channel"))
	}
	nth := c.total
	w.raceSend(c)
	c.buf = append(c.buf, copyVal(v))
	c.sent++
	target := c.sent
	taken := func() bool { return c.sent-len(c.buf) >= target }
	w.block(taken)
	w.raceSent(c, nth)
}

func (w *W) chanRecv(c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		w.block(func() bool { return false })
	}
	w.yield()
	if c.cap == 0 && len(c.buf) == 0 && !c.closed {
		rc := w.newReceiver()
		c.recvs = append(c.recvs, rc)
		w.block(func() bool { return len(c.buf) > 0 || c.closed })
		rc.gone = true
	} else {
		w.block(func() bool { return len(c.buf) > 0 || c.closed })
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		w.raceRecv(c, true)
		return v, true
	}
	w.raceRecv(c, false)
	return zero(et), false
}

func (w *W) chanClose(c *Chan) {
	if c == nil {
		panic(w.goPanicStr("close of nil channel"))
	}
	if c.closed {
		panic(w.goPanicStr("close of closed channel"))
	}
	w.yield()
	if w.race != nil {
		c.closing = w.snapshot()
	}
	c.closed = true
}

func (w *W) selectOp(fr *frame, ci *cinstr, in *ssa.Select) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
	}
	var sts []st
	k := 0
	for _, s := range in.States {
		c, _ := fr.get(&ci.o[k]).(*Chan)
		x := st{c: c, send: s.Dir == types.SendOnly}
		if s.Send != nil {
			x.v = fr.get(&ci.o[k+1])
		}
		k += 2 // the operands are those of all channels and values, including nil
		sts = append(sts, x)
	}
	readyIdx := func() []int {
		var r []int
		for i, s := range sts {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || len(s.c.buf) < s.c.cap || s.c.cap == 0 && s.c.waiting() {
					r = append(r, i)
				}
			} else if len(s.c.buf) > 0 || s.c.closed {
				r = append(r, i)
			}
		}
		return r
	}
	w.yield()
	if in.Blocking && len(readyIdx()) == 0 {
		// receivers of unbuffered channels a select statement can send to
		rc := w.newReceiver()
		for _, s := range sts {
			if s.c != nil && !s.send && s.c.cap == 0 {
				s.c.recvs = append(s.c.recvs, rc)
			}
		}
		w.block(func() bool { return len(readyIdx()) > 0 })
		rc.gone = true
	}
	r := readyIdx()
	idx := -1
	if len(r) > 0 {
		idx = r[0]
		if len(r) > 1 {
			idx = r[w.choose(len(r))]
		}
	}
	res := Tuple{uint64(int64(idx)), false}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				c := sts[i].c
				if len(c.buf) > 0 {
					res = append(res, c.buf[0])
					c.buf = append([]Value{}, c.buf[1:]...)
					res[1] = true
					w.raceRecv(c, true)
				} else {
					w.raceRecv(c, false)
					res = append(res, zero(et))
				}
			} else {
				res = append(res, zero(et))
			}
		} else if i == idx {
			c := sts[i].c
			if c.closed {
				panic(w.goPanicStr("send on closed channel"))
			}
			w.raceSend(c)
			c.buf = append(c.buf, copyVal(sts[i].v))
			c.sent++
			if c.cap == 0 {
				w.takeReceiver(c)
			}
		}
	}
	return res
}
