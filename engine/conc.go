package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines, channels, locks and happens-before race detection. Scheduling choices are fresh
// finite-domain variables taken at synchronisation operations.

func (ex *Exec) spawn(s *State, fn Value, args []Value, ci *CallInfo) {
	if !s.conc {
		s.conc = true
		s.acc = map[accKey]*accInfo{}
		g := s.gw()
		g.vc = vclock{}.inc(0)
	}
	id := len(s.gs)
	pg := s.gw()
	cvc := pg.vc.inc(id)
	pg.vc = pg.vc.inc(s.cur)
	g := &Gor{owner: s.tok, vc: cvc, name: fmt.Sprintf("g%d", id)}
	s.gs = append(s.gs[:len(s.gs):len(s.gs)], g)
	cur := s.cur
	s.cur = id
	ex.invoke(s, fn, args, -1, ci, false)
	if len(s.gs[id].frames) == 0 {
		s.gwi(id).st = gDone
	}
	s.cur = cur
}

// point is a scheduling point before an operation that others' operations don't commute with:
// acquiring a lock, using a channel, an atomic operation. It reports whether the operation must
// wait for the choice of the goroutine to run. Other instructions need no point: as accesses that
// race are reported, those between two points commute with the other goroutines' ones.
func (ex *Exec) point(s *State) bool {
	if !s.conc {
		return false
	}
	g := s.gw()
	if g.passed {
		g.passed = false
		return false
	}
	g.passed = true
	s.needSched = true
	return true
}

func (ex *Exec) tick(s *State) {
	if s.conc {
		g := s.gw()
		g.vc = g.vc.inc(s.cur)
	}
}

// enabled reports whether goroutine i can make progress.
func (ex *Exec) enabled(s *State, i int) bool {
	g := s.gs[i]
	if g.st == gDone {
		return false
	}
	if g.st == gRun && !g.passed {
		return true
	}
	f := g.frames[len(g.frames)-1]
	in := &f.fi.blocks[f.block].ins[f.pc]
	switch x := in.in.(type) {
	case *ssa.UnOp: // receive
		return ex.recvReady(s, ex.get(f, in.ops[0]))
	case *ssa.Send:
		if g.st == gRun {
			return true
		}
		ch := ex.get(f, in.ops[0])
		if ch.N == 0 {
			return false
		}
		if g.sendOn != 0 {
			return false
		}
		if g.sent {
			return true
		}
		c := s.get(ObjID(ch.N)).ch
		return c.closed || len(c.buf) < c.cap
	case *ssa.Select:
		for k, st := range x.States {
			if st.Dir == 2 && ex.recvReady(s, ex.get(f, in.ops[2*k])) {
				return true
			}
		}
		return false
	}
	if in.call != nil {
		name := ""
		if in.call.static != nil {
			name = in.call.static.name
		}
		var p Value
		if len(in.call.args) > 0 {
			p = ex.res(s, ex.get(f, in.call.args[0]))
		}
		switch name {
		case "(*sync.Mutex).Lock":
			return s.get(p.obj()).cells[p.off()].N == 0
		case "(*sync.RWMutex).Lock":
			o := s.get(p.obj())
			return o.cells[p.off()].N == 0 && o.cells[p.off()+1].N == 0
		case "(*sync.RWMutex).RLock":
			return s.get(p.obj()).cells[p.off()].N == 0
		case "(*sync.WaitGroup).Wait":
			return s.get(p.obj()).cells[p.off()].N == 0
		}
	}
	return true
}

func (ex *Exec) recvReady(s *State, ch Value) bool {
	if ch.N == 0 {
		return false
	}
	c := s.get(ObjID(ch.N)).ch
	if len(c.buf) > 0 || c.closed {
		return true
	}
	for _, g := range s.gs {
		if g.sendOn == ch.N && g.st == gBlocked {
			return true
		}
	}
	return false
}

// pending is the object that goroutine i's next operation, one of a scheduling point, works on, 0
// if it doesn't commute with anything.
func (ex *Exec) pending(s *State, i int) uint64 {
	g := s.gs[i]
	f := g.frames[len(g.frames)-1]
	in := &f.fi.blocks[f.block].ins[f.pc]
	switch in.in.(type) {
	case *ssa.UnOp, *ssa.Send:
		return ex.get(f, in.ops[0]).N<<1 | 1
	}
	if in.call != nil && len(in.call.args) > 0 {
		switch {
		case in.call.static == nil:
		case in.call.static.name == "(*sync.Mutex).Lock", in.call.static.name == "(*sync.RWMutex).Lock",
			in.call.static.name == "(*sync.RWMutex).RLock", in.call.static.name == "(*sync.Mutex).TryLock":
			return ex.res(s, ex.get(f, in.call.args[0])).N << 1
		}
	}
	return 0
}

// eager reports whether goroutine i, which is enabled, isn't before an operation of a scheduling
// point: it starts, or goes on after an operation that was waited for. What it does until its next
// point commutes with the other goroutines' steps, so that it may run first.
func (ex *Exec) eager(s *State, i int) bool {
	g := s.gs[i]
	if g.st == gRun && !g.passed {
		return true
	}
	if g.st != gBlocked {
		return false
	}
	f := g.frames[len(g.frames)-1]
	in := &f.fi.blocks[f.block].ins[f.pc]
	if in.call != nil && in.call.static != nil && in.call.static.name == "(*sync.WaitGroup).Wait" {
		return true
	}
	_, ok := in.in.(*ssa.Send)
	return ok && g.sent
}

// schedule picks the next goroutine to run. Of the schedules that differ only in the order of
// operations on different locks and channels one is followed: s.sleep has the goroutines whose next
// step was tried before at a point since which only steps it commutes with were done.
func (ex *Exec) schedule(s *State) (kids []*State, stop *Stop, ended bool) {
	s.needSched = false
	var en []int
	for i := range s.gs {
		if ex.enabled(s, i) {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		if s.gs[0].st != gDone {
			ex.violation(s, "deadlock", "all goroutines are asleep - deadlock", ex.whereAll(s), nil)
		}
		ex.endPath(s, "deadlock")
		return nil, nil, true
	}
	run := func(s *State, i int) {
		s.cur = i
		g := s.gwi(i)
		g.st = gRun
	}
	for _, i := range en {
		if ex.eager(s, i) {
			run(s, i)
			return nil, nil, false
		}
	}
	keys := map[int]uint64{}
	var cand []int
	curOK := false
	for _, i := range en {
		keys[i] = ex.pending(s, i)
		if s.sleep>>uint(i)&1 == 0 {
			cand = append(cand, i)
		}
		curOK = curOK || i == s.cur
	}
	// step runs goroutine i, which wakes those whose next step doesn't commute with it
	step := func(s *State, i int, sleep uint64) {
		s.sleep = 0
		for _, j := range en {
			if sleep>>uint(j)&1 == 1 && j != i && keys[i] != 0 && keys[j] != 0 && keys[i] != keys[j] {
				s.sleep |= 1 << uint(j)
			}
		}
		if curOK && i != s.cur {
			s.preempt++
		}
		run(s, i)
	}
	if curOK && s.preempt >= ex.cs.preempt {
		if s.sleep>>uint(s.cur)&1 == 1 {
			cand = nil
		} else {
			cand = []int{s.cur}
		}
		ex.bounded++
	}
	switch len(cand) {
	case 0:
		ex.endPath(s, "equivalent")
		return nil, nil, true
	case 1:
		step(s, cand[0], s.sleep)
		return nil, nil, false
	}
	v := ex.c.FD(fmt.Sprintf("sch#%d/%d", s.nsch, len(cand)), len(cand))
	s.nsch++
	if ex.forced {
		k := int(ex.fmodel.val(v))
		ex.draws = append(ex.draws, fmt.Sprintf("sched g%d", cand[k]))
		sleep := s.sleep
		for _, j := range cand[:k] {
			sleep |= 1 << uint(j)
		}
		step(s, cand[k], sleep)
		return nil, nil, false
	}
	sleep := s.sleep
	for k, i := range cand {
		c := ex.fork(s)
		gd := ex.c.In(v, 1<<uint(k))
		ok, m := ex.may(c, gd)
		if ok {
			ex.addPC(c, gd)
			c.model = m
			step(c, i, sleep)
			kids = append(kids, c)
		}
		sleep |= 1 << uint(i)
	}
	return kids, nil, len(kids) == 0
}

func (ex *Exec) whereAll(s *State) string {
	r := ""
	cur := s.cur
	for i, g := range s.gs {
		if g.st == gDone || len(g.frames) == 0 {
			continue
		}
		s.cur = i
		if r != "" {
			r += " || "
		}
		r += fmt.Sprintf("g%d: %s", i, ex.where(s))
	}
	s.cur = cur
	return r
}

func (ex *Exec) chanSend(s *State, f *Frame, in *Inst) (kids []*State, stop *Stop, ended bool) {
	chv := ex.res(s, ex.get(f, in.ops[0]))
	v := ex.get(f, in.ops[1])
	g := s.gw()
	if ex.point(s) {
		return nil, nil, false
	}
	block := func() ([]*State, *Stop, bool) {
		g.st = gBlocked
		g.passed = true
		return ex.schedule(s)
	}
	if chv.N == 0 {
		return block()
	}
	if g.sent {
		g.sent = false
		s.topw().pc++
		return nil, nil, false
	}
	c := s.get(ObjID(chv.N)).ch
	if c.closed {
		ex.doPanicMsg(s, Value{K: KIface, P: &IfaceV{ex.p.rtErrT(), vStr("send on closed channel")}}, "panic: send on closed channel")
		return nil, nil, ex.unwound(s)
	}
	if c.cap > 0 {
		if len(c.buf) >= c.cap {
			return block()
		}
		o := s.getw(ObjID(chv.N))
		o.ch.buf = append(o.ch.buf, v)
		o.ch.vcs = append(o.ch.vcs, g.vc)
		if o.ch.cvc != nil {
			g.vc = g.vc.join(o.ch.cvc)
		}
		ex.tick(s)
		s.topw().pc++
		return nil, nil, false
	}
	g.sendOn = chv.N
	g.sendVal = v
	g.sendVC = g.vc
	o := s.getw(ObjID(chv.N))
	o.ch.snd++
	g.wakeArg = vInt(int64(o.ch.snd))
	return block()
}

func (ex *Exec) chanRecv(s *State, f *Frame, in *Inst) (kids []*State, stop *Stop, ended bool) {
	chv := ex.res(s, ex.get(f, in.ops[0]))
	if ex.point(s) {
		return nil, nil, false
	}
	if !ex.recvReady(s, chv) {
		s.gw().st = gBlocked
		s.gw().passed = true
		return ex.schedule(s)
	}
	v, ok := ex.takeFrom(s, chv, in.lay)
	if in.flag {
		cells := []Value{v}
		if v.K == KAgg {
			cells = append([]Value{}, v.agg()...)
		}
		v = vAgg(append(cells, vBool(ok)))
	}
	f = s.topw()
	f.regs[in.dst] = v
	f.pc++
	return nil, nil, false
}

func (ex *Exec) takeFrom(s *State, chv Value, lay *Layout) (Value, bool) {
	o := s.getw(ObjID(chv.N))
	c := o.ch
	g := s.gw()
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if len(c.vcs) > 0 {
			g.vc = g.vc.join(c.vcs[0])
			c.vcs = append([]vclock{}, c.vcs[1:]...)
		}
		c.cvc = c.cvc.join(g.vc)
		ex.tick(s)
		return v, true
	}
	best := -1
	for i, h := range s.gs {
		if h.sendOn == chv.N && h.st == gBlocked && (best < 0 || h.wakeArg.N < s.gs[best].wakeArg.N) {
			best = i
		}
	}
	if best >= 0 {
		h := s.gwi(best)
		v := h.sendVal
		g.vc = g.vc.join(h.sendVC)
		h.vc = h.vc.join(g.vc).inc(best)
		h.sendOn, h.sendVal, h.sendVC, h.sent = 0, Value{}, nil, true
		ex.tick(s)
		return v, true
	}
	// closed
	if c.cvc != nil {
		g.vc = g.vc.join(c.cvc)
	}
	if lay.agg {
		return vAgg(lay.zero), false
	}
	return lay.zero[0], false
}

func (ex *Exec) chanClose(s *State, chv Value) bool {
	if chv.N == 0 {
		ex.rtPanic(s, "close of nil channel")
		return false
	}
	o := s.getw(ObjID(chv.N))
	if o.ch.closed {
		ex.rtPanic(s, "close of closed channel")
		return false
	}
	o.ch.closed = true
	o.ch.cvc = o.ch.cvc.join(s.g().vc)
	ex.tick(s)
	return true
}

func (ex *Exec) doSelect(s *State, f *Frame, in *Inst, x *ssa.Select) (kids []*State, stop *Stop, ended bool) {
	panic(unsupported("select"))
}

// access records a memory access for race detection.
func (ex *Exec) access(s *State, id ObjID, off, n int, write bool) {
	if s.acc == nil || id <= ex.p.baseObj && !ex.p.repoGlobal(id) {
		return
	}
	if fr := s.gs[s.cur].frames; len(fr) > 0 && fr[len(fr)-1].fi.model {
		return // the operating system synchronises its files itself
	}
	g := s.cur
	vc := s.gs[g].vc
	for k := off; k < off+n; k++ {
		key := accKey{id, k}
		a := s.acc[key]
		if a == nil {
			a = &accInfo{wg: -1}
			s.acc[key] = a
		}
		at := func(c vclock, i int) int32 {
			if i < len(c) {
				return c[i]
			}
			return 0
		}
		if a.wg >= 0 && a.wg != g && a.wc > at(vc, a.wg) {
			ex.race(s, key, a.wpos, write)
		}
		if write {
			for i, r := range a.rd {
				if i != g && r > at(vc, i) {
					ex.race(s, key, a.rpos, write)
				}
			}
			a.wg, a.wc, a.wpos = g, at(vc, g), ex.loc(s)
			a.rd = nil
		} else {
			if len(a.rd) <= g {
				n := make(vclock, g+1)
				copy(n, a.rd)
				a.rd = n
			} else {
				a.rd = append(vclock{}, a.rd...)
			}
			a.rd[g] = at(vc, g)
			a.rpos = ex.loc(s)
		}
	}
}

func (ex *Exec) loc(s *State) string { return firstLoc(ex.where(s)) }

func (ex *Exec) race(s *State, k accKey, other string, write bool) {
	ex.violation(s, "race", "data race: unsynchronised access, other side at "+other, ex.where(s), nil)
}

func (p *Program) repoGlobal(id ObjID) bool {
	return p.repoG[id]
}

// --- lock intrinsics ---

func (ex *Exec) acquire(s *State, p Value) {
	if s.conc {
		if v, ok := s.locks[p.N]; ok {
			g := s.gw()
			g.vc = g.vc.join(v)
		}
		ex.tick(s)
	}
}
func (ex *Exec) release(s *State, p Value) {
	if s.conc {
		n := make(map[uint64]vclock, len(s.locks)+1)
		for k, v := range s.locks {
			n[k] = v
		}
		n[p.N] = n[p.N].join(s.g().vc)
		s.locks = n
		ex.tick(s)
	}
}

func init() {
	intrinsics["(*sync.Mutex).Lock"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		if !ex.checkNil(s, p) {
			return Value{}, actPanic
		}
		if ex.point(s) {
			return Value{}, actRetry
		}
		if s.get(p.obj()).cells[p.off()].N != 0 {
			return Value{}, actBlock
		}
		s.getw(p.obj()).cells[p.off()] = vInt(1)
		ex.acquire(s, p)
		return Value{}, actOK
	}
	intrinsics["(*sync.Mutex).TryLock"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		if ex.point(s) {
			return Value{}, actRetry
		}
		if s.get(p.obj()).cells[p.off()].N != 0 {
			return vBool(false), actOK
		}
		s.getw(p.obj()).cells[p.off()] = vInt(1)
		ex.acquire(s, p)
		return vBool(true), actOK
	}
	unlock := func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		if !ex.checkNil(s, p) {
			return Value{}, actPanic
		}
		if s.get(p.obj()).cells[p.off()].N == 0 {
			ex.violation(s, "panic", "fatal error: sync: unlock of unlocked mutex", ex.where(s), nil)
			ex.endPath(s, "panic")
			panic(infeasible{})
		}
		s.getw(p.obj()).cells[p.off()] = vInt(0)
		ex.release(s, p)
		return Value{}, actOK
	}
	intrinsics["(*sync.Mutex).Unlock"] = unlock
	intrinsics["(*sync.RWMutex).Unlock"] = unlock
	intrinsics["(*sync.RWMutex).Lock"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		if ex.point(s) {
			return Value{}, actRetry
		}
		o := s.get(p.obj())
		if o.cells[p.off()].N != 0 || o.cells[p.off()+1].N != 0 {
			return Value{}, actBlock
		}
		s.getw(p.obj()).cells[p.off()] = vInt(1)
		ex.acquire(s, p)
		return Value{}, actOK
	}
	intrinsics["(*sync.RWMutex).RLock"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		if ex.point(s) {
			return Value{}, actRetry
		}
		if s.get(p.obj()).cells[p.off()].N != 0 {
			return Value{}, actBlock
		}
		o := s.getw(p.obj())
		o.cells[p.off()+1] = vInt(int64(o.cells[p.off()+1].N) + 1)
		ex.acquire(s, p)
		return Value{}, actOK
	}
	intrinsics["(*sync.RWMutex).RUnlock"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		o := s.getw(p.obj())
		o.cells[p.off()+1] = vInt(int64(o.cells[p.off()+1].N) - 1)
		// a reader's release only orders later writers; using one clock is conservative
		ex.release(s, p)
		return Value{}, actOK
	}
	intrinsics["(*sync.WaitGroup).Add"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		d := ex.concInt(s, a[1])
		o := s.getw(p.obj())
		n := int64(o.cells[p.off()].N) + d
		if n < 0 {
			ex.doPanicMsg(s, Value{K: KIface, P: &IfaceV{ex.p.rtErrT(), vStr("sync: negative WaitGroup counter")}}, "panic: sync: negative WaitGroup counter")
			return Value{}, actPanic
		}
		o.cells[p.off()] = vInt(n)
		ex.release(s, p)
		return Value{}, actOK
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		return intrinsics["(*sync.WaitGroup).Add"](ex, s, ci, []Value{a[0], vInt(-1)})
	}
	intrinsics["(*sync.WaitGroup).Wait"] = func(ex *Exec, s *State, ci *CallInfo, a []Value) (Value, action) {
		p := ex.res(s, a[0])
		if s.get(p.obj()).cells[p.off()].N != 0 {
			return Value{}, actBlock
		}
		ex.acquire(s, p)
		return Value{}, actOK
	}
}
