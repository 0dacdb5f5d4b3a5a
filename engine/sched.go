package main

import (
	"fmt"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine, run on its own Go goroutine; only the one
// holding the baton executes.
type G struct {
	ex    *Exec
	id    int
	top   *frame
	depth int
	stack []Value
	sp    int

	wake    chan struct{}
	ready   func() bool // nil: runnable
	why     string
	done    bool
	started bool
	fn      Value
	args    []Value
	vc      vclock
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []Value
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

type waiter struct {
	g     *G
	fired *bool
	idx   *int
	my    int
	val   Value // to send, or received
	slot  *Value
	ok    *bool
}

func (ex *Exec) spawn(f Value, args []Value) *G {
	g := &G{ex: ex, id: len(ex.gs), wake: make(chan struct{}, 1), fn: f, args: args}
	ex.gs = append(ex.gs, g)
	if p := ex.cur; ex.opt.Sched && p != nil {
		p.own()
		g.vc = append(vclock(nil), p.vc...)
		p.vc[p.id]++
	}
	if len(ex.gs) > 200 {
		ex.abandon("too many goroutines")
	}
	go g.run()
	if ex.opt.Sched && ex.cur != nil {
		ex.cur.yield("go")
	}
	return g
}

// run is the body of the Go goroutine backing g.
func (g *G) run() {
	<-g.wake
	ex := g.ex
	defer func() {
		r := recover()
		g.done = true
		switch x := r.(type) {
		case nil:
		case killed:
		case pathEnd:
			ex.finish(x)
		case *goPanic:
			ex.crash(g, x)
		default:
			ex.finish(pathEnd{"abandon", fmt.Sprintf("engine: %v\n%s\n%s", r, g.stackStr(), debug.Stack())})
		}
		if ex.over {
			ex.acks <- struct{}{}
			return
		}
		// hand over to somebody else
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					ex.finish(pe)
				} else {
					ex.finish(pathEnd{"abandon", fmt.Sprintf("engine: %v\n%s", r, debug.Stack())})
				}
				ex.acks <- struct{}{}
			}
		}()
		if g.id == 0 {
			ex.finish(pathEnd{"done", ""})
			ex.acks <- struct{}{}
			return
		}
		n := ex.pick(g)
		if n == nil {
			ex.deadlock()
			ex.acks <- struct{}{}
			return
		}
		ex.cur = n
		ex.acks <- struct{}{}
		n.wake <- struct{}{}
	}()
	if ex.over {
		panic(killed{})
	}
	ex.cur = g
	g.callValue(g.fn, g.args)
}

// finish marks the path as over; the driver then kills the rest.
func (ex *Exec) finish(pe pathEnd) {
	if !ex.over {
		ex.over = true
		ex.end = pe
		close(ex.overCh)
	}
}

// pick chooses the next goroutine to run; g is the one giving up the baton.
func (ex *Exec) pick(g *G) *G {
	for {
		var c []*G
		for _, x := range ex.gs {
			if x.done {
				continue
			}
			if x.ready == nil || x.ready() {
				c = append(c, x)
			}
		}
		if len(c) == 0 {
			if ex.fireTimer() {
				continue
			}
			return nil
		}
		if len(c) == 1 {
			return c[0]
		}
		if ex.opt.Sched && ex.schedOn {
			return c[ex.choose("sched", len(c))]
		}
		// deterministic: round robin after g
		for _, x := range c {
			if x.id > g.id {
				return x
			}
		}
		return c[0]
	}
}

// block suspends g until cond holds.
func (g *G) block(why string, cond func() bool) {
	ex := g.ex
	if cond != nil && cond() {
		return
	}
	g.ready = cond
	g.why = why
	for {
		n := ex.pick(g)
		if n == nil {
			ex.deadlock()
			panic(killed{})
		}
		if n != g {
			ex.switchTo(g, n)
		}
		if cond == nil || cond() {
			g.ready = nil
			return
		}
	}
}

func (ex *Exec) switchTo(g, n *G) {
	ex.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if ex.over {
		panic(killed{})
	}
	ex.cur = g
}

// yield is a scheduling point.
func (g *G) yield(why string) {
	ex := g.ex
	if !ex.opt.Sched || !ex.schedOn || ex.preempt >= ex.opt.Preempt {
		return
	}
	if g.top != nil && g.top.code.isHarn && why != "yield" {
		return
	}
	var c []*G
	c = append(c, g)
	for _, x := range ex.gs {
		if x == g || x.done {
			continue
		}
		if x.ready == nil || x.ready() {
			c = append(c, x)
		}
	}
	if len(c) == 1 {
		return
	}
	k := ex.choose("sched", len(c))
	if k == 0 {
		return
	}
	ex.preempt++
	g.ready = nil
	g.why = why
	ex.switchTo(g, c[k])
}

func (ex *Exec) deadlock() {
	if ex.over {
		return
	}
	msg := "deadlock:"
	for _, g := range ex.gs {
		if !g.done {
			msg += fmt.Sprintf(" g%d(%s)", g.id, g.why)
		}
	}
	main := ex.gs[0]
	ex.violation("deadlock", msg, main.stackStr(), nil)
	ex.finish(pathEnd{"done", ""})
}

type timer struct {
	at   uint64
	seq  int
	fire func()
	dead bool
}

func (ex *Exec) addTimer(d uint64, f func()) *timer {
	t := &timer{at: ex.now + d, seq: len(ex.timers), fire: f}
	ex.timers = append(ex.timers, t)
	return t
}

func (ex *Exec) fireTimer() bool {
	var b *timer
	for _, t := range ex.timers {
		if !t.dead && (b == nil || t.at < b.at) {
			b = t
		}
	}
	if b == nil {
		return false
	}
	b.dead = true
	if b.at > ex.now {
		ex.now = b.at
	}
	ex.timersFired++
	if ex.timersFired > 10000 {
		ex.abandon("too many timers")
	}
	b.fire()
	return true
}

// ---- channels

func (g *G) getChan(v Value) *Chan {
	c, _ := v.P.(*Chan)
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.fired {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.fired {
			return true
		}
	}
	return false
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || c.closed || hasWaiter(c.sendq) }
func (c *Chan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) }

func (g *G) doRecv(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			*w.fired = true
			*w.idx = w.my
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		*w.fired = true
		*w.idx = w.my
		return w.val, true
	}
	return zero(c.elem), false
}

func (g *G) doSend(c *Chan, v Value) {
	if c.closed {
		panic(&goPanic{v: g.errVal("send on closed channel"), msg: "send on closed channel", stack: g.stackStr()})
	}
	if w := popWaiter(&c.recvq); w != nil {
		*w.slot = v
		*w.ok = true
		*w.fired = true
		*w.idx = w.my
		return
	}
	c.buf = append(c.buf, v)
}

func (g *G) errVal(msg string) Value {
	return Value{P: &Iface{T: g.ex.w.p.rtErrT, V: Value{P: []Value{strV(msg)}}}}
}

func (g *G) chanSend(cv, v Value) {
	c := g.getChan(cv)
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	g.yield("send")
	g.acqrel(c)
	if c.canSend() {
		g.doSend(c, v)
		return
	}
	fired, idx := false, 0
	w := &waiter{g: g, fired: &fired, idx: &idx, val: v}
	c.sendq = append(c.sendq, w)
	g.block("chan send", func() bool { return fired || c.closed })
	g.acq(c)
	if !fired {
		fired = true
		g.doSend(c, v) // panics: closed
	}
}

func (g *G) chanRecv(cv Value, eT types.Type) (Value, bool) {
	c := g.getChan(cv)
	if c == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	g.yield("recv")
	g.acqrel(c)
	if c.canRecv() {
		return g.doRecv(c)
	}
	fired, idx := false, 0
	var slot Value
	ok := false
	w := &waiter{g: g, fired: &fired, idx: &idx, slot: &slot, ok: &ok}
	c.recvq = append(c.recvq, w)
	g.block("chan receive", func() bool { return fired || c.closed })
	g.acq(c)
	if fired {
		return slot, ok
	}
	fired = true
	return g.doRecv(c)
}

func (g *G) chanClose(cv Value) {
	c := g.getChan(cv)
	if c == nil || c.closed {
		panic(&goPanic{v: g.errVal("close of nil or closed channel"), msg: "close of nil or closed channel", stack: g.stackStr()})
	}
	g.yield("close")
	g.acqrel(c)
	c.closed = true
}

func (c *compiler) sel(x *ssa.Select) opfn {
	d := c.slot(x)
	type st struct {
		ch, v opnd
		send  bool
		eT    types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		e := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, eT: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.v = c.op(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		g := fr.g
		ex := g.ex
		g.yield("select")
		chans := make([]*Chan, len(sts))
		for i := range sts {
			chans[i] = g.getChan(fr.get(&sts[i].ch))
			if chans[i] != nil {
				g.acqrel(chans[i])
			}
		}
		ready := func() []int {
			var r []int
			for i := range sts {
				if chans[i] == nil {
					continue
				}
				if sts[i].send && chans[i].canSend() || !sts[i].send && chans[i].canRecv() {
					r = append(r, i)
				}
			}
			return r
		}
		chosen := -1
		var rv Value
		rok := false
		r := ready()
		if len(r) == 0 && blocking {
			fired, idx := false, -1
			var slot Value
			ok := false
			for i := range sts {
				if chans[i] == nil {
					continue
				}
				w := &waiter{g: g, fired: &fired, idx: &idx, my: i, slot: &slot, ok: &ok}
				if sts[i].send {
					w.val = fr.get(&sts[i].v)
					chans[i].sendq = append(chans[i].sendq, w)
				} else {
					chans[i].recvq = append(chans[i].recvq, w)
				}
			}
			g.block("select", func() bool {
				if fired {
					return true
				}
				for i := range sts {
					if chans[i] != nil && chans[i].closed {
						return true
					}
				}
				return false
			})
			if fired {
				chosen = idx
				rv, rok = slot, ok
			} else {
				fired = true
				for i := range sts {
					if chans[i] != nil && chans[i].closed {
						chosen = i
						if sts[i].send {
							g.doSend(chans[i], Value{})
						}
						rv, rok = g.doRecv(chans[i])
						break
					}
				}
			}
		} else if len(r) > 0 {
			k := 0
			if len(r) > 1 && ex.opt.Sched && ex.schedOn {
				k = ex.choose("select", len(r))
			}
			chosen = r[k]
			if sts[chosen].send {
				g.doSend(chans[chosen], fr.get(&sts[chosen].v))
			} else {
				rv, rok = g.doRecv(chans[chosen])
			}
		}
		if chosen >= 0 {
			g.acq(chans[chosen])
		}
		res := make([]Value, 2+nrecv)
		res[0] = intVal(chosen)
		res[1] = boolVal(rok)
		k := 2
		for i := range sts {
			if sts[i].send {
				continue
			}
			if i == chosen {
				res[k] = rv
			} else {
				res[k] = zero(sts[i].eT)
			}
			k++
		}
		fr.regs[d] = Value{P: res}
	}
}
