package main

// Data races: vector clocks over the synchronisation operations of the executed path. An access of the repository's
// code to memory (variables, fields, elements, maps) that is neither before nor behind a conflicting access of another
// goroutine is a race, no matter how the goroutines happened to be scheduled on this path. Synchronisation inside of the
// models of the outside world (verifrt, harnesses) doesn't count; accesses of the standard library are not looked at.

import (
	"path/filepath"
	"strings"
)

type vclock []int

func (c vclock) at(i int) int {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *vclock) join(o vclock) {
	for len(*c) < len(o) {
		*c = append(*c, 0)
	}
	for i, v := range o {
		if v > (*c)[i] {
			(*c)[i] = v
		}
	}
}

func (c vclock) clone() vclock { return append(vclock{}, c...) }

// access is the last access of a goroutine.
type access struct {
	g, clock int
	site     string
}

type shadow struct {
	w     access
	wrote bool
	reads []access
}

type raceState struct {
	cells map[any]*shadow // by *Value or *Map
	sync  map[any]*vclock // released clocks of mutexes, wait groups, ...
	found [][2]string     // message, stack
}

func (w *W) detectRaces() {
	if w.race == nil {
		w.race = &raceState{cells: map[any]*shadow{}, sync: map[any]*vclock{}}
	}
}

func (w *W) clock() *vclock {
	g := w.gcur
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return &g.vc
}

func (w *W) tick() { w.clock(); w.gcur.vc[w.gcur.id]++ }

// snapshot is the clock of a release operation.
func (w *W) snapshot() vclock {
	c := w.clock().clone()
	w.tick()
	return c
}

func (w *W) acquireClock(c vclock) { w.clock().join(c) }

func (w *W) release(o any) {
	if w.race == nil || w.modelled() {
		return
	}
	s := w.race.sync[o]
	if s == nil {
		s = &vclock{}
		w.race.sync[o] = s
	}
	s.join(w.snapshot())
}

func (w *W) acquire(o any) {
	if w.race == nil || w.modelled() {
		return
	}
	if s := w.race.sync[o]; s != nil {
		w.acquireClock(*s)
	}
}

// modelled tells whether the current operation belongs to a model of the outside world or to the harness.
func (w *W) modelled() bool {
	return w.curFrame != nil && w.raceKind(w.curFrame.cf) == raceModel
}

const (
	raceRepo  = 1 // the code under test
	raceLib   = 2
	raceModel = 3
)

func (w *W) raceKind(cf *cfunc) int32 {
	if k := cf.raceKind.Load(); k != 0 {
		return k
	}
	k := int32(raceLib)
	fn := cf.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "wiki2book") {
		file := filepath.Base(w.prog.Fset.Position(fn.Pos()).Filename)
		switch {
		case strings.HasSuffix(fn.Pkg.Pkg.Path(), "/verifrt"):
			k = raceModel
			if file == "std.go" {
				k = raceLib // synchronisation primitives of the standard library
			}
		case strings.Contains(file, "zz_verif"):
			k = raceModel
		default:
			k = raceRepo
		}
	}
	cf.raceKind.Store(k)
	return k
}

func (w *W) raceOn(fr *frame) bool {
	return w.race != nil && len(w.gors) > 1 && !w.inInit && fr != nil && w.raceKind(fr.cf) == raceRepo
}

// touch records an access to all cells of the value at p.
func (w *W) touch(fr *frame, p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			w.touch(fr, &v[i], write)
		}
		return
	case Array:
		for i := range v {
			w.touch(fr, &v[i], write)
		}
		return
	}
	w.touchKey(fr, p, write)
}

func (w *W) touchMap(fr *frame, m *Map, write bool) {
	if m != nil && w.raceOn(fr) {
		w.touchKey(fr, m, write)
	}
}

func (w *W) touchSlice(fr *frame, s Slice, write bool) {
	for i := range s {
		w.touch(fr, &s[i], write)
	}
}

func (w *W) touchKey(fr *frame, key any, write bool) {
	c := *w.clock()
	me := w.gcur.id
	s := w.race.cells[key]
	if s == nil {
		s = &shadow{}
		w.race.cells[key] = s
	}
	if s.wrote && s.w.g != me && c.at(s.w.g) < s.w.clock {
		w.raceFound(fr, s.w.site, "write", write)
		return
	}
	if write {
		for _, r := range s.reads {
			if r.g != me && c.at(r.g) < r.clock {
				w.raceFound(fr, r.site, "read", write)
				return
			}
		}
		s.w = access{me, c.at(me), w.raceSite(fr)}
		s.wrote = true
		s.reads = s.reads[:0]
		return
	}
	for i := range s.reads {
		if s.reads[i].g == me {
			s.reads[i].clock = c.at(me)
			return
		}
	}
	s.reads = append(s.reads, access{me, c.at(me), w.raceSite(fr)})
}

func (w *W) raceSite(fr *frame) string {
	return fr.cf.fn.String()
}

func (w *W) raceFound(fr *frame, other, kind string, write bool) {
	mine := "read"
	if write {
		mine = "write"
	}
	msg := "data race: " + mine + " in " + w.raceSite(fr) + ", " + kind + " in " + other + " at the same time"
	for _, f := range w.race.found {
		if f[0] == msg {
			return
		}
	}
	w.race.found = append(w.race.found, [2]string{msg, w.stackOf(fr)})
}

// Channels. A value carries the clock of its sender; the sender of an unbuffered channel continues behind the receiver,
// and the sender of the value which needs the place of an earlier one behind the receiver of that.

func (w *W) raceSend(c *Chan) {
	if w.race == nil {
		return
	}
	if c.cap > 0 && len(c.recvd) > 0 {
		if i := c.total - c.cap; i >= 0 && i < len(c.recvd) {
			w.acquireClock(c.recvd[i])
		}
	}
	c.total++
	c.clocks = append(c.clocks, w.snapshot())
}

func (w *W) raceSent(c *Chan, n int) {
	if w.race != nil && n >= 0 && n < len(c.recvd) {
		w.acquireClock(c.recvd[n])
	}
}

func (w *W) raceRecv(c *Chan, value bool) {
	if w.race == nil {
		return
	}
	if !value {
		w.acquireClock(c.closing)
		return
	}
	if len(c.clocks) > 0 {
		w.acquireClock(c.clocks[0])
		c.clocks = append([]vclock{}, c.clocks[1:]...)
	}
	c.recvd = append(c.recvd, w.snapshot())
}

func (w *W) newReceiver() *receiver {
	r := &receiver{}
	if w.race != nil {
		r.vc = w.snapshot()
	}
	return r
}
