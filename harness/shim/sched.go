// Package shim replaces goroutines, channels, locks, package loading and map iteration of the instrumented code with
// deterministic, explorable versions. Only one goroutine of an execution runs at a time; every point at which another
// one could run is a recorded choice.
package shim

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sync"
)

// ---- scheduler ----

type gor struct {
	id     int
	resume chan struct{}
	op     *op
	pred   func() bool
	done   bool
	what   string
	h      uint64 // hash of the goroutine's causal history

	started bool
	site    string // goroutines of one go statement with equal arguments are interchangeable until they start
	args    []any
}

type point struct{ n, chosen int }

// mix folds causal histories.
func mix(a, b uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 ^ (b + 0x7f4a7c159e3779b9 + a<<6 + a>>2)
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 29
	return x
}

// touch records an operation of the running goroutine on a shared object.
func touch(obj *uint64, kind uint64) {
	if s == nil {
		return
	}
	g := s.cur
	g.h = mix(mix(g.h, *obj), kind)
	*obj = g.h
}

type sched struct {
	gs       []*gor
	cur      *gor
	trace    []point
	prefix   []int
	preempt  int
	bound    int
	steps    int
	maxSteps int
	stmt     bool // statement-level points
	finished chan struct{}
	res      Result
	dead     bool
	seq      int
	cache    map[uint64]int // causal state -> fewest preemptions it was reached with
	nobranch bool
	pruned   bool
}

// Result describes one execution.
type Result struct {
	Deadlock  bool     // main never returned
	Leaked    []string // goroutines left blocked for ever
	Panic     string
	Livelock  bool
	Steps     int
	Points    int
	Trace     []int
	Preempted int
}

var (
	s  *sched
	mu sync.Mutex // only guards s during hand-over at the start and end of an execution
)

func (g *gor) enabled() bool {
	if g.done {
		return false
	}
	if g.op != nil {
		return g.op.ready()
	}
	if g.pred != nil {
		return g.pred()
	}
	return true
}

func (c *sched) choose(kind uint64, n int) int {
	if n <= 1 || c.nobranch {
		return 0
	}
	i := len(c.trace)
	k := 0
	if i >= len(c.prefix) && c.cache != nil {
		// Executions with the same causal history are in the same state: its continuations are explored only once.
		f := mix(mix(uint64(c.cur.id), uint64(n)), kind)
		for _, g := range c.gs {
			f = mix(f, g.h)
			if g.done {
				f = mix(f, 7)
			}
		}
		if p, ok := c.cache[f]; ok && p <= c.preempt {
			c.nobranch, c.pruned = true, true
			return 0
		}
		c.cache[f] = c.preempt
	}
	if i < len(c.prefix) {
		k = c.prefix[i]
		if k >= n {
			k = n - 1
		}
	}
	c.trace = append(c.trace, point{n, k})
	return k
}

// schedule picks the goroutine which runs next; the caller parks until it is picked.
func (c *sched) schedule() {
	me := c.cur
	c.steps++
	if c.dead {
		select {} // the execution is over, park for ever
	}
	var en []*gor
	if me.enabled() {
		en = append(en, me)
	}
	meEnabled := len(en) == 1
	if !meEnabled || c.preempt < c.bound {
		for _, g := range c.gs {
			if g != me && g.enabled() && !c.symmetric(g) {
				en = append(en, g)
			}
		}
	}
	if c.steps > c.maxSteps {
		c.res.Livelock = true
		c.end()
		if me.done {
			return
		}
		select {}
	}
	if len(en) == 0 {
		all := true
		for _, g := range c.gs {
			if !g.done {
				all = false
				if g.id == 0 {
					c.res.Deadlock = true
				} else {
					c.res.Leaked = append(c.res.Leaked, g.what)
				}
			}
		}
		_ = all
		c.end()
		if me.done {
			return
		}
		select {}
	}
	next := en[c.choose(1, len(en))]
	if next == me {
		return
	}
	if meEnabled {
		c.preempt++
	}
	c.cur = next
	raceOff()
	defer raceOn()
	next.resume <- struct{}{}
	if me.done {
		return
	}
	<-me.resume
}

// symmetric says whether an identical goroutine, not started either, stands for this one.
func (c *sched) symmetric(g *gor) bool {
	if g.started || g.site == "" {
		return false
	}
	for _, o := range c.gs[:g.id] {
		if o.started || o.site != g.site || len(o.args) != len(g.args) {
			continue
		}
		same := true
		for i := range o.args {
			same = same && (o.args[i] == nil || reflect.TypeOf(o.args[i]).Comparable()) && o.args[i] == g.args[i]
		}
		if same {
			return true
		}
	}
	return false
}

func (c *sched) end() {
	c.dead = true
	close(c.finished)
}

func (c *sched) spawn(f func(), what string) *gor {
	g := &gor{id: len(c.gs), resume: make(chan struct{}, 1), what: what}
	if c.cur != nil {
		c.cur.h = mix(c.cur.h, 3)
		g.h = mix(c.cur.h, 5)
	}
	c.gs = append(c.gs, g)
	go func() {
		raceOff()
		<-g.resume
		raceOn()
		g.started = true
		defer func() {
			if p := recover(); p != nil && c.res.Panic == "" {
				c.res.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			g.done = true
			release(&endSync)
			c.schedule()
		}()
		f()
	}()
	return g
}

func block(pred func() bool, what string) {
	c := s
	if c == nil {
		if pred != nil && !pred() {
			panic("VH-INFRA blocking outside an execution: " + what)
		}
		return
	}
	g := c.cur
	g.pred = pred
	c.schedule()
	g.pred = nil
}

// Point is a place where another goroutine may run.
func Point() {
	if s != nil && s.stmt {
		block(nil, "point")
	}
}

// Yield is a synchronisation point without a condition.
func Yield() {
	if s != nil {
		block(nil, "yield")
	}
}

// Go replaces the go statement.
func Go(f func()) { GoSym(f, "") }

// GoSym is Go for a go statement whose function captures nothing that differs between its executions.
func GoSym(f func(), site string, args ...any) {
	if s == nil {
		panic("VH-INFRA goroutine outside an execution")
	}
	g := s.spawn(f, fmt.Sprintf("goroutine %d %s", len(s.gs), site))
	g.site, g.args = site, args
}

// MaxSteps raises the number of steps after which an execution counts as endless.
var MaxSteps int

// Run executes body under the given choices.
func Run(prefix []int, bound int, stmt bool, cache map[uint64]int, body func()) Result {
	c := &sched{prefix: prefix, bound: bound, stmt: stmt, maxSteps: max(20000, MaxSteps), finished: make(chan struct{}), cache: cache}
	mu.Lock()
	s = c
	mu.Unlock()
	g := c.spawn(body, "main")
	c.cur = g
	g.resume <- struct{}{}
	<-c.finished
	acquire(&endSync)
	mu.Lock()
	s = nil
	mu.Unlock()
	c.res.Steps, c.res.Points, c.res.Preempted = c.steps, len(c.trace), c.preempt
	for _, p := range c.trace {
		c.res.Trace = append(c.res.Trace, p.chosen)
	}
	c.res.Trace = trimZeros(c.res.Trace)
	lastTrace = c.trace
	return c.res
}

var (
	lastTrace []point
	endSync   uint64 // every goroutine's end happens before the harness looks at the result
)

func trimZeros(t []int) []int {
	for len(t) > 0 && t[len(t)-1] == 0 {
		t = t[:len(t)-1]
	}
	return t
}

// Explore runs body under every schedule within the preemption bound; f judges each one and stops the search by
// returning false. It reports the number of executions and whether the space was exhausted.
func Explore(bound int, stmt bool, limit int, body func(), f func(Result) bool) (n int, exhausted bool) {
	var prefix []int
	var cache map[uint64]int
	if !stmt { // at statement granularity the causal history does not determine the state
		cache = map[uint64]int{}
	}
	for {
		r := Run(prefix, bound, stmt, cache, body)
		tr := lastTrace
		n++
		if !f(r) {
			return n, false
		}
		i := len(tr) - 1
		for i >= 0 && tr[i].chosen+1 >= tr[i].n {
			i--
		}
		if i < 0 {
			return n, true
		}
		if n >= limit {
			return n, false
		}
		prefix = prefix[:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, tr[j].chosen)
		}
		prefix = append(prefix, tr[i].chosen+1)
	}
}

// ---- channels ----

type chanCore struct {
	buf    []any
	cap    int
	closed bool
	h      uint64

	sent, received int
	slots          []uint64 // ordering of the buffer's slots
	closeSync      uint64
}

// slot orders the n-th transfer through its buffer slot.
func (c *chanCore) slot(n *int) {
	if c.slots == nil {
		c.slots = make([]uint64, c.cap)
	}
	p := &c.slots[*n%c.cap]
	*n++
	acquire(p)
	release(p)
}

type scase struct {
	ch   *chanCore
	send bool
	val  any
}

type op struct {
	g      *gor
	cases  []scase
	def    bool
	done   bool
	chosen int
	val    any
	ok     bool
	seq    int
	sync   uint64
}

// partner finds the goroutine longest blocked with the complementary operation.
func partner(me *op, ch *chanCore, send bool) (*op, int) {
	var best *op
	bi := 0
	for _, g := range s.gs {
		o := g.op
		if o == nil || o == me || o.done || o.def || g.done {
			continue
		}
		for i, c := range o.cases {
			if c.ch == ch && c.ch != nil && c.send != send && (best == nil || o.seq < best.seq) {
				best, bi = o, i
				break
			}
		}
	}
	return best, bi
}

func (o *op) caseReady(i int) bool {
	c := o.cases[i]
	if c.ch == nil {
		return false
	}
	if c.send {
		if c.ch.closed || len(c.ch.buf) < c.ch.cap {
			return true
		}
		if c.ch.cap > 0 {
			return false
		}
		p, _ := partner(o, c.ch, true)
		return p != nil
	}
	if len(c.ch.buf) > 0 || c.ch.closed {
		return true
	}
	if c.ch.cap > 0 {
		return false
	}
	p, _ := partner(o, c.ch, false)
	return p != nil
}

func (o *op) readyCases() (r []int) {
	for i := range o.cases {
		if o.caseReady(i) {
			r = append(r, i)
		}
	}
	return
}

func (o *op) ready() bool { return o.done || o.def || len(o.readyCases()) > 0 }

func (o *op) fire(i int) {
	c := o.cases[i]
	o.done, o.chosen = true, i
	touch(&c.ch.h, uint64(i)+11)
	rendezvous := func(p *op, pi int) {
		acquire(&p.sync)
		release(&p.sync)
		p.g.h = mix(mix(p.g.h, c.ch.h), uint64(pi)+11)
		c.ch.h = mix(c.ch.h, p.g.h)
		o.g.h = c.ch.h
	}
	if c.send {
		if c.ch.closed {
			panic("send on closed channel")
		}
		if c.ch.cap > 0 {
			c.ch.buf = append(c.ch.buf, c.val)
			c.ch.slot(&c.ch.sent)
			return
		}
		p, pi := partner(o, c.ch, true)
		p.done, p.chosen, p.val, p.ok = true, pi, c.val, true
		rendezvous(p, pi)
		return
	}
	if len(c.ch.buf) > 0 {
		o.val, o.ok = c.ch.buf[0], true
		c.ch.buf = c.ch.buf[1:]
		c.ch.slot(&c.ch.received)
		return
	}
	if p, pi := partner(o, c.ch, false); p != nil && c.ch.cap == 0 {
		o.val, o.ok = p.cases[pi].val, true
		p.done, p.chosen = true, pi
		rendezvous(p, pi)
		return
	}
	o.val, o.ok = nil, false // closed
	acquire(&c.ch.closeSync)
}

// SelectOp performs a select; it returns the chosen case (-1 for default).
func SelectOp(def bool, cases ...scase) (int, any, bool) {
	if s == nil {
		o := &op{cases: cases, def: def}
		for i, c := range cases { // outside an execution only buffered channels make sense
			if c.ch != nil && (c.send && len(c.ch.buf) < c.ch.cap || !c.send && (len(c.ch.buf) > 0 || c.ch.closed)) {
				o.fireOutside(i)
				return i, o.val, o.ok
			}
		}
		if def {
			return -1, nil, false
		}
		panic("VH-INFRA blocking channel operation outside an execution")
	}
	g := s.cur
	s.seq++
	o := &op{g: g, cases: cases, def: def, seq: s.seq}
	g.op = o
	release(&o.sync)
	s.schedule()
	if o.done {
		acquire(&o.sync)
	}
	if !o.done {
		r := o.readyCases()
		if len(r) == 0 {
			g.op = nil
			for _, c := range cases {
				if c.ch != nil {
					touch(&c.ch.h, 2)
				}
			}
			return -1, nil, false
		}
		k := r[0]
		if len(r) > 1 {
			k = r[s.choose(2, len(r))]
		}
		defer func() { g.op = nil }()
		o.fire(k)
	}
	g.op = nil
	return o.chosen, o.val, o.ok
}

func (o *op) fireOutside(i int) {
	c := o.cases[i]
	if c.send {
		c.ch.buf = append(c.ch.buf, c.val)
		return
	}
	if len(c.ch.buf) > 0 {
		o.val, o.ok = c.ch.buf[0], true
		c.ch.buf = c.ch.buf[1:]
	}
}

// Chan replaces chan T.
type Chan[T any] struct{ core chanCore }

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{chanCore{cap: n}} }

func (c *Chan[T]) c() *chanCore {
	if c == nil {
		return nil
	}
	return &c.core
}

// SendCase and RecvCase build select cases.
func SendCase[T any](c *Chan[T], v T) scase { return scase{c.c(), true, v} }

// RecvCase builds a receive case.
func RecvCase[T any](c *Chan[T]) scase { return scase{c.c(), false, nil} }

// As converts the received value.
func As[T any](_ *Chan[T], v any) (t T) {
	if v != nil {
		t = v.(T)
	}
	return
}

// Send replaces c <- v.
func (c *Chan[T]) Send(v T) { SelectOp(false, SendCase(c, v)) }

// Recv replaces <-c.
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

// Recv2 replaces v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	_, v, ok := SelectOp(false, RecvCase(c))
	return As(c, v), ok
}

// Close replaces close(c).
func (c *Chan[T]) Close() {
	Yield()
	if c.core.closed {
		panic("close of closed channel")
	}
	c.core.closed = true
	release(&c.core.closeSync)
	touch(&c.core.h, 17)
}

// Len and Cap replace len(c) and cap(c).
func (c *Chan[T]) Len() int {
	Yield()
	touch(&c.core.h, 19)
	return len(c.core.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int { return c.core.cap }

// Range replaces for v := range c.
func (c *Chan[T]) Range() func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ---- locks ----

// Mutex replaces sync.Mutex. There is a scheduling point before every operation; a release needs none.
type Mutex struct {
	locked bool
	h      uint64
	sync   uint64
}

// Lock locks.
func (m *Mutex) Lock() {
	block(func() bool { return !m.locked }, "lock")
	m.locked = true
	acquire(&m.sync)
	touch(&m.h, 21)
}

// TryLock tries.
func (m *Mutex) TryLock() bool {
	Yield()
	touch(&m.h, 22)
	if m.locked {
		return false
	}
	m.locked = true
	acquire(&m.sync)
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	release(&m.sync)
	touch(&m.h, 23)
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w            bool
	r            int
	h            uint64
	sync, rusync uint64
}

func (m *RWMutex) Lock() {
	block(func() bool { return !m.w && m.r == 0 }, "lock")
	m.w = true
	acquire(&m.sync)
	acquire(&m.rusync)
	touch(&m.h, 31)
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	release(&m.sync)
	touch(&m.h, 32)
}

func (m *RWMutex) RLock() {
	block(func() bool { return !m.w }, "rlock")
	m.r++
	acquire(&m.sync)
	touch(&m.h, 33)
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	release(&m.rusync)
	touch(&m.h, 34)
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n    int
	h    uint64
	sync uint64
}

func (w *WaitGroup) Add(d int) {
	Yield()
	w.n += d
	if d < 0 {
		release(&w.sync)
	}
	if s != nil { // additions commute
		s.cur.h = mix(s.cur.h, uint64(int64(d)))
		w.h += s.cur.h
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	block(func() bool { return w.n == 0 }, "wait")
	acquire(&w.sync)
	if s != nil {
		s.cur.h = mix(s.cur.h, w.h)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		o.done = true
		f()
	}
}

// Map replaces sync.Map.
type Map struct {
	m    map[any]any
	h    uint64
	sync uint64
}

func (m *Map) touch(kind uint64) {
	Yield()
	acquire(&m.sync)
	release(&m.sync)
	touch(&m.h, kind)
}

func (m *Map) Load(k any) (any, bool) {
	m.touch(41)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	m.touch(42)
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.touch(43)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.touch(44)
	x, ok := m.m[k]
	delete(m.m, k)
	return x, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Range(f func(k, v any) bool) {
	m.touch(45)
	for k, v := range m.m {
		if !f(k, v) {
			return
		}
	}
}
