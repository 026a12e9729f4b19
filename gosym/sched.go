package main

// Goroutines, channels and locks. Exactly one interpreted goroutine runs at a time; the
// choice of who runs next at a synchronisation point is a symbolic variable.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id     int
	resume chan struct{}
	done   bool
	kill   bool
	wait   func() bool // nil = runnable
	exited chan struct{}
}

type chanV struct {
	cap    int
	buf    []value
	sendq  []*sendItem
	closed bool
	zero   value
	nrecv  int
	timer  bool
	dur    int64 // of timers
	ticks  bool  // a ticker
	fired  bool
	never  bool
}

type sendItem struct {
	v     value
	taken bool
}

func (m *machine) spawn(fr *frame, fn value, args []value) {
	g := &gor{id: len(m.gs), resume: make(chan struct{}, 1), exited: make(chan struct{})}
	m.gs = append(m.gs, g)
	go func() {
		defer close(g.exited)
		<-g.resume
		if g.kill {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killed); ok {
				return
			}
			g.done = true
			if r != nil {
				m.fatal = r
				m.handOver(m.gs[0])
				return
			}
			// pick somebody else
			n := m.pickNext(g)
			if n == nil {
				n = m.gs[0]
			}
			m.handOver(n)
		}()
		m.depth = 0
		m.call(nil, fn, args)
	}()
	m.yield(fr)
}

func (m *machine) handOver(g *gor) {
	m.cur = g
	g.resume <- struct{}{}
}

// switchTo transfers the baton and waits to get it back.
func (m *machine) switchTo(self, g *gor) {
	if self == g {
		return
	}
	depth, lp := m.depth, m.lastPos
	m.handOver(g)
	<-self.resume
	if self.kill {
		panic(killed{})
	}
	m.depth, m.lastPos = depth, lp
	if m.fatal != nil && self.id == 0 {
		f := m.fatal
		m.fatal = nil
		panic(f)
	}
}

func (m *machine) runnable() []*gor {
	var l []*gor
	for _, g := range m.gs {
		if !g.done && (g.wait == nil || g.wait()) {
			l = append(l, g)
		}
	}
	return l
}

func (m *machine) pickNext(self *gor) *gor {
	l := m.runnable()
	if len(l) == 0 {
		if m.fireTimer() {
			l = m.runnable()
		}
	}
	if len(l) == 0 {
		return nil
	}
	if m.cfg.FixedSched {
		if l[0].id == 0 && len(l) > 1 {
			return l[1]
		}
		return l[0]
	}
	return l[m.chooseSym("sched", len(l))]
}

// yield is a possible preemption point.
func (m *machine) yield(fr *frame) {
	if len(m.gs) == 1 || m.preempts >= m.cfg.Preempt {
		return
	}
	if m.inMerge {
		panic(mergeAbort{})
	}
	self := m.cur
	l := m.runnable()
	if len(l) <= 1 {
		return
	}
	g := l[m.chooseSym("sched", len(l))]
	if g != self {
		m.preempts++
		m.switchTo(self, g)
	}
}

func (m *machine) fireTimer() bool {
	ts, _ := m.side["timers"].([]*chanV)
	// the shortest comes first
	var first *chanV
	for _, t := range ts {
		if !t.fired && t.nrecv > 0 && (first == nil || t.dur < first.dur) {
			first = t
		}
	}
	if first == nil {
		return false
	}
	first.fired = true
	first.buf = append(first.buf, first.zero)
	return true
}

// block waits until pred holds.
func (m *machine) block(fr *frame, pred func() bool, what string) {
	if m.inMerge {
		panic(mergeAbort{})
	}
	self := m.cur
	if pred() {
		return
	}
	self.wait = pred
	for !pred() {
		g := m.pickNext(self)
		if g == nil {
			if self.id == 0 {
				self.wait = nil
				m.violation("deadlock: "+what, m.model)
				panic(pathEnd{"deadlock"})
			}
			g = m.gs[0]
			// main cannot run either: report from main
			m.fatal = deadlockSig{what}
			m.switchTo(self, g)
			continue
		}
		m.switchTo(self, g)
	}
	self.wait = nil
}

type deadlockSig struct{ what string }

func (m *machine) killAll() {
	for _, g := range m.gs {
		if g.id == 0 || g.done {
			continue
		}
		g.kill = true
		g.resume <- struct{}{}
		<-g.exited
		g.done = true
	}
}

func (m *machine) chanSend(fr *frame, cv value, v value) {
	ch, _ := cv.(*chanV)
	if ch == nil {
		m.block(fr, func() bool { return false }, "send on nil channel")
	}
	m.yield(fr)
	if ch.closed {
		m.rtPanic(fr, "send on closed channel")
	}
	if ch.cap > 0 {
		m.block(fr, func() bool { return ch.closed || len(ch.buf) < ch.cap }, "channel send")
		if ch.closed {
			m.rtPanic(fr, "send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(v))
		return
	}
	it := &sendItem{v: copyVal(v)}
	ch.sendq = append(ch.sendq, it)
	m.block(fr, func() bool { return it.taken || ch.closed }, "channel send")
	if !it.taken {
		m.rtPanic(fr, "send on closed channel")
	}
}

func (ch *chanV) canRecv() bool {
	return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed
}

func (ch *chanV) take(m *machine) (value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if len(ch.sendq) > 0 {
		it := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		it.taken = true
		return it.v, true
	}
	return copyVal(ch.zero), false
}

func (m *machine) chanRecv(fr *frame, cv value) (value, bool) {
	ch, _ := cv.(*chanV)
	if ch == nil {
		m.block(fr, func() bool { return false }, "receive on nil channel")
	}
	m.yield(fr)
	ch.nrecv++
	m.block(fr, ch.canRecv, "channel receive")
	ch.nrecv--
	return ch.take(m)
}

func (m *machine) chanClose(fr *frame, cv value) {
	ch, _ := cv.(*chanV)
	if ch == nil {
		m.rtPanic(fr, "close of nil channel")
	}
	if ch.closed {
		m.rtPanic(fr, "close of closed channel")
	}
	ch.closed = true
	m.yield(fr)
}

func (m *machine) doSelect(fr *frame, ins *ssa.Select) value {
	m.yield(fr)
	type st struct {
		ch   *chanV
		send bool
		v    value
	}
	var sts []st
	for _, s := range ins.States {
		ch, _ := fr.get(s.Chan).(*chanV)
		x := st{ch: ch}
		if s.Dir == types.SendOnly {
			x.send = true
			x.v = copyVal(fr.get(s.Send))
		}
		sts = append(sts, x)
	}
	ready := func() []int {
		var l []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || len(s.ch.buf) < s.ch.cap || s.ch.cap == 0 && s.ch.nrecv > len(s.ch.sendq) {
					l = append(l, i)
				}
			} else if s.ch.canRecv() {
				l = append(l, i)
			}
		}
		return l
	}
	r := ready()
	chosen := -1
	if len(r) == 0 && ins.Blocking {
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.nrecv++
			}
		}
		m.block(fr, func() bool { return len(ready()) > 0 }, "select")
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.nrecv--
			}
		}
		r = ready()
	}
	if len(r) > 0 {
		chosen = r[m.chooseSym("select", len(r))]
	}
	res := tuple{m.x.Int(int64(chosen)), m.x.F}
	var recvd value
	recvOk := false
	if chosen >= 0 {
		s := sts[chosen]
		if s.send {
			if s.ch.closed {
				m.rtPanic(fr, "send on closed channel")
			}
			if s.ch.cap > 0 {
				s.ch.buf = append(s.ch.buf, s.v)
			} else {
				it := &sendItem{v: s.v}
				s.ch.sendq = append(s.ch.sendq, it)
				m.block(fr, func() bool { return it.taken }, "select send")
			}
		} else {
			recvd, recvOk = s.ch.take(m)
		}
	}
	res[1] = m.x.Bool(recvOk)
	for i, s := range ins.States {
		if s.Dir == types.RecvOnly {
			if i == chosen {
				res = append(res, recvd)
			} else {
				res = append(res, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}

// ---- locks ----

type lockState struct {
	writer  *gor
	readers int
}

func (m *machine) lockOf(p value) *lockState {
	l, _ := m.side[p].(*lockState)
	if l == nil {
		l = &lockState{}
		m.side[p] = l
	}
	return l
}

func (m *machine) lock(fr *frame, p value) {
	l := m.lockOf(p)
	m.yield(fr)
	m.block(fr, func() bool { return l.writer == nil && l.readers == 0 }, fmt.Sprintf("mutex lock at %s", fr.where()))
	l.writer = m.cur
}

func (m *machine) unlock(fr *frame, p value) {
	l := m.lockOf(p)
	if l.writer == nil {
		m.rtPanic(fr, "unlock of unlocked mutex")
	}
	l.writer = nil
	m.yield(fr)
}

func (m *machine) rlock(fr *frame, p value) {
	l := m.lockOf(p)
	m.yield(fr)
	m.block(fr, func() bool { return l.writer == nil }, "rlock")
	l.readers++
}

func (m *machine) runlock(fr *frame, p value) {
	l := m.lockOf(p)
	if l.readers == 0 {
		m.rtPanic(fr, "RUnlock of unlocked RWMutex")
	}
	l.readers--
	m.yield(fr)
}

// opaque is an engine-implemented object reached through an interface.
type opaque struct {
	kind    string
	methods map[string]func(fr *frame, args []value) value
}

func (o *opaque) method(m *machine, name string) value {
	f := o.methods[name]
	if f == nil {
		return nil
	}
	return &nativeFn{o.kind + "." + name, f}
}
