// Package vsched runs a program under a controlled scheduler: one goroutine at a time, every choice taken from a
// list, so that all schedules up to a number of preemptions can be enumerated. Code that is instrumented calls this
// package instead of using goroutines, channels and locks directly. Outside of a controlled run every function does
// what the language does.
package vsched

import (
	"fmt"
	"runtime/debug"
	"sort"
	"unsafe"
)

type thread struct {
	id      int
	resume  chan struct{}
	blocked bool
	done    bool
	why     string
	// what a wake up brought
	idx int
	val any
	ok  bool
}

type waiter struct {
	t     *thread
	idx   int
	val   any
	fired *bool
}

type channel struct {
	buf    []any
	cap    int
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

// Config bounds an exploration
type Config struct {
	Preemptions int  // deviations from the schedule that lets a goroutine run until it waits and then takes the oldest
	Free        bool // choices between goroutines when one waits or ends are not counted
	Maps        bool // the order of iterations over maps is chosen as well, a deviation is an order other than the sorted one
	Level       int  // -1: nowhere; 0: only at operations on channels, locks and goroutines; n: also at the statements of level <= n
	MaxSteps    int  // of one run
	MaxRuns     int  // 0: no limit
	Stop        func() bool
	Part, Parts int // only the schedules whose first deviation is at a choice that is Part modulo Parts
}

type run struct {
	cfg       Config
	threads   []*thread
	cur       *thread
	live      int
	chans     map[unsafe.Pointer]*channel
	keep      []any // keeps the channels alive, their addresses are keys
	prefix    []int
	trace     []choice
	preempted int
	steps     int
	switches  int
	failure   error
	aborting  bool
	finished  chan struct{}
	diverged  bool
	mainDone  bool
	looking   bool
	monitor   func() error
	leaked    int
}

type choice struct{ took, n int }

var cur *run

// Instrumented is set when the code under test was built to run under this scheduler
var Instrumented string

type abort struct{}

// Result of an exploration
type Result struct {
	Runs, Steps, Switches, Choices int
	Preempted                      int // runs with at least one preemption
	Diverged                       int
	Leaked                         int // most goroutines that were left waiting
	Truncated                      bool
	Err                            error
	Schedule                       []int // of the failing run
}

// Explore runs body under every schedule. body is called once per schedule and returns what is wrong with it.
//
// prepare is called before every run, outside of the scheduler; it returns the body and, optionally, a monitor that is
// asked at every point.
func Explore(cfg Config, prepare func() (body, monitor func() error)) (res Result) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 1 << 20
	}
	var prefix []int
	for {
		body, monitor := prepare()
		r := one(cfg, prefix, body, monitor)
		res.Runs++
		res.Steps += r.steps
		res.Switches += r.switches
		res.Choices += len(r.trace)
		if r.preempted > 0 {
			res.Preempted++
		}
		if r.diverged {
			res.Diverged++
		}
		if r.leaked > res.Leaked {
			res.Leaked = r.leaked
		}
		if r.failure != nil {
			res.Err = r.failure
			for _, c := range r.trace {
				res.Schedule = append(res.Schedule, c.took)
			}
			return
		}
		// the next schedule in depth first order
		i := len(r.trace) - 1
		for i >= 0 && (r.trace[i].took+1 >= r.trace[i].n || cfg.Parts > 1 && i%cfg.Parts != cfg.Part && allZero(r.trace[:i+1])) {
			i--
		}
		if i < 0 {
			return
		}
		prefix = prefix[:0]
		for _, c := range r.trace[:i] {
			prefix = append(prefix, c.took)
		}
		prefix = append(prefix, r.trace[i].took+1)
		if cfg.MaxRuns > 0 && res.Runs >= cfg.MaxRuns || cfg.Stop != nil && cfg.Stop() {
			res.Truncated = true
			return
		}
	}
}

func allZero(c []choice) bool {
	for _, e := range c {
		if e.took != 0 {
			return false
		}
	}
	return true
}

func one(cfg Config, prefix []int, body, monitor func() error) *run {
	r := &run{cfg: cfg, monitor: monitor, prefix: prefix, chans: map[unsafe.Pointer]*channel{}, finished: make(chan struct{})}
	cur = r
	t := r.spawn(func() {
		err := body()
		r.monitor = nil
		if err != nil && r.failure == nil {
			r.failure = err
		}
	}, true)
	r.cur = t
	t.resume <- struct{}{}
	<-r.finished
	cur = nil
	return r
}

func (r *run) spawn(f func(), main bool) *thread {
	t := &thread{id: len(r.threads), resume: make(chan struct{}, 1)}
	r.threads = append(r.threads, t)
	r.live++
	go func() {
		<-t.resume
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); !ok && r.failure == nil {
					st := string(debug.Stack())
					if len(st) > 1500 {
						st = st[:1500]
					}
					r.failure = fmt.Errorf("panic in goroutine %d: %v\n%s", t.id, e, st)
				}
				r.aborting = true
			}
			t.done = true
			r.live--
			if main {
				r.mainDone = true
			}
			r.next()
		}()
		if r.aborting {
			panic(abort{})
		}
		f()
	}()
	return t
}

// next hands over when the current goroutine has ended
func (r *run) next() {
	if r.aborting {
		for _, t := range r.threads {
			if !t.done {
				r.cur = t
				t.resume <- struct{}{}
				return
			}
		}
		close(r.finished)
		return
	}
	en := r.enabled(nil)
	if len(en) == 0 {
		if r.mainDone {
			r.leaked = r.live // goroutines that wait forever after the end
		} else if r.failure == nil {
			r.failure = r.deadlock()
		}
		r.aborting = true
		r.next()
		return
	}
	t := en[r.pick(len(en))]
	r.cur = t
	r.switches++
	t.resume <- struct{}{}
}

func (r *run) deadlock() error {
	s := "deadlock:"
	for _, t := range r.threads {
		if !t.done {
			s += fmt.Sprintf(" goroutine %d waits for %s;", t.id, t.why)
		}
	}
	return fmt.Errorf("%s", s)
}

// enabled lists the goroutines that can go on, first comes first
func (r *run) enabled(first *thread) (en []*thread) {
	if first != nil && !first.blocked {
		en = append(en, first)
	}
	for _, t := range r.threads {
		if t != first && !t.done && !t.blocked {
			en = append(en, t)
		}
	}
	return
}

func (r *run) choose(n int) int {
	c := 0
	if k := len(r.trace); k < len(r.prefix) {
		c = r.prefix[k]
		if c >= n {
			r.diverged = true
			c = n - 1
		}
	}
	r.trace = append(r.trace, choice{c, n})
	return c
}

// pick chooses who goes on when the current goroutine cannot
func (r *run) pick(n int) int {
	if n == 1 || r.cfg.Level < 0 || !r.cfg.Free && r.preempted >= r.cfg.Preemptions {
		return 0
	}
	k := r.choose(n)
	if k > 0 && !r.cfg.Free {
		r.preempted++
	}
	return k
}

// point is a place where another goroutine may take over
func (r *run) point() {
	if r.looking {
		return
	}
	if r.aborting {
		panic(abort{})
	}
	r.steps++
	if r.monitor != nil {
		r.looking = true
		err := r.monitor()
		r.looking = false
		if err != nil {
			if r.failure == nil {
				r.failure = err
			}
			r.aborting = true
			panic(abort{})
		}
	}
	if r.steps > r.cfg.MaxSteps {
		r.failure = fmt.Errorf("no termination: more than %d steps", r.cfg.MaxSteps)
		r.aborting = true
		panic(abort{})
	}
	if r.live == 1 || r.cfg.Level < 0 || r.preempted >= r.cfg.Preemptions {
		return
	}
	t := r.cur
	n := 0
	for _, o := range r.threads {
		if o != t && !o.done && !o.blocked {
			n++
		}
	}
	if n == 0 {
		return
	}
	if k := r.choose(n + 1); k > 0 {
		r.preempted++
		r.switchTo(t, r.enabled(t)[k])
	}
}

func (r *run) switchTo(from, to *thread) {
	r.switches++
	r.cur = to
	to.resume <- struct{}{}
	<-from.resume
	if r.aborting {
		panic(abort{})
	}
}

// block waits until somebody wakes the current goroutine
func (r *run) block(why string) {
	t := r.cur
	t.blocked, t.why = true, why
	en := r.enabled(nil)
	if len(en) == 0 {
		if r.mainDone {
			r.leaked = r.live
		} else {
			r.failure = r.deadlock()
		}
		r.aborting = true
		t.blocked = false
		panic(abort{})
	}
	r.switchTo(t, en[r.pick(len(en))])
}

func (r *run) wake(t *thread) { t.blocked = false }

func (r *run) chanOf(p unsafe.Pointer, c any, n int) *channel {
	m := r.chans[p]
	if m == nil {
		m = &channel{cap: n}
		r.chans[p] = m
		r.keep = append(r.keep, c)
	}
	return m
}

func ptr[T any](c chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.fired != nil {
			if *w.fired {
				continue
			}
			*w.fired = true
		}
		return w
	}
	return nil
}

// trySend and tryRecv perform the operation if it does not block
func (c *channel) trySend(r *run, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.t.idx, w.t.val, w.t.ok = w.idx, v, true
		r.wake(w.t)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *channel) tryRecv(r *run) (v any, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.t.idx, w.t.ok = w.idx, true
			r.wake(w.t)
		}
		return v, true, true
	}
	if w := pop(&c.sendq); w != nil {
		w.t.idx, w.t.ok = w.idx, true
		r.wake(w.t)
		return w.val, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

// ---------------------------------------------------------------- what instrumented code calls

// P marks a statement
func P(level int) {
	if r := cur; r != nil && level <= r.cfg.Level {
		r.point()
	}
}

// Controlled tells whether a controlled run is going on
func Controlled() bool { return cur != nil }

func Go(f func()) {
	r := cur
	if r == nil {
		go f()
		return
	}
	if r.aborting {
		panic(abort{})
	}
	r.spawn(f, false)
	r.point()
}

// To sends to a channel
func To[T any](ch chan<- T) func(T) { return func(v T) { send(ch, v) } }

func send[T any](ch chan<- T, v T) {
	r := cur
	if r == nil {
		ch <- v
		return
	}
	r.point()
	if ch == nil {
		r.block("a nil channel")
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := r.chanOf(p, ch, cap(ch))
	if c.trySend(r, v) {
		return
	}
	t := r.cur
	c.sendq = append(c.sendq, &waiter{t: t, val: v})
	r.block("a receiver")
	if !t.ok {
		panic("send on closed channel")
	}
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	r := cur
	if r == nil {
		v, ok = <-ch
		return
	}
	r.point()
	if ch == nil {
		r.block("a nil channel")
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := r.chanOf(p, ch, cap(ch))
	x, ok, done := c.tryRecv(r)
	if !done {
		t := r.cur
		c.recvq = append(c.recvq, &waiter{t: t})
		r.block("a sender")
		x, ok = t.val, t.ok
	}
	if ok {
		v, _ = x.(T)
	}
	return
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Ranger replaces the range clause over a channel
type Ranger[T any] struct{ ch <-chan T }

func Range[T any](ch <-chan T) *Ranger[T] { return &Ranger[T]{ch} }
func RangeVar[T any](ch <-chan T) (*Ranger[T], T) {
	var zero T
	return &Ranger[T]{ch}, zero
}
func (r *Ranger[T]) Next(to *T) bool {
	v, ok := Recv2(r.ch)
	if ok && to != nil {
		*to = v
	}
	return ok
}

func Close[T any](ch chan<- T) {
	r := cur
	if r == nil {
		close(ch)
		return
	}
	r.point()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := r.chanOf(p, ch, cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for w := pop(&c.recvq); w != nil; w = pop(&c.recvq) {
		w.t.idx, w.t.val, w.t.ok = w.idx, nil, false
		r.wake(w.t)
	}
	for w := pop(&c.sendq); w != nil; w = pop(&c.sendq) {
		w.t.idx, w.t.ok = w.idx, false
		r.wake(w.t)
	}
}

func Len[T any](ch <-chan T) int {
	r := cur
	if r == nil {
		return len(ch)
	}
	r.point()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	return len(r.chanOf(p, ch, cap(ch)).buf)
}

// Case of a select statement
type Case interface {
	try(r *run) bool
	enqueue(r *run, t *thread, i int, fired *bool)
	finish(t *thread)
	real() (dir int, ch any, v any, set func(any, bool))
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func OnRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) chanOf(r *run) *channel {
	return r.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch)), c.ch, cap(c.ch))
}
func (c *RecvCase[T]) try(r *run) bool {
	if c.ch == nil {
		return false
	}
	v, ok, done := c.chanOf(r).tryRecv(r)
	if done {
		c.OK = ok
		if ok {
			c.V, _ = v.(T)
		}
	}
	return done
}
func (c *RecvCase[T]) enqueue(r *run, t *thread, i int, fired *bool) {
	if c.ch != nil {
		m := c.chanOf(r)
		m.recvq = append(m.recvq, &waiter{t: t, idx: i, fired: fired})
	}
}
func (c *RecvCase[T]) finish(t *thread) {
	c.OK = t.ok
	if t.ok {
		c.V, _ = t.val.(T)
	}
}
func (c *RecvCase[T]) real() (int, any, any, func(any, bool)) {
	return 0, c.ch, nil, func(v any, ok bool) { c.V, _ = v.(T); c.OK = ok }
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func OnSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}
func (c *SendCase[T]) chanOf(r *run) *channel {
	return r.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch)), c.ch, cap(c.ch))
}
func (c *SendCase[T]) try(r *run) bool { return c.ch != nil && c.chanOf(r).trySend(r, c.v) }
func (c *SendCase[T]) enqueue(r *run, t *thread, i int, fired *bool) {
	if c.ch != nil {
		m := c.chanOf(r)
		m.sendq = append(m.sendq, &waiter{t: t, idx: i, val: c.v, fired: fired})
	}
}
func (c *SendCase[T]) finish(t *thread) {
	if !t.ok {
		panic("send on closed channel")
	}
}
func (c *SendCase[T]) real() (int, any, any, func(any, bool)) { return 1, c.ch, c.v, nil }

// Select picks a case; -1 is the default
func Select(hasDefault bool, cases ...Case) int {
	r := cur
	if r == nil {
		return realSelect(hasDefault, cases)
	}
	r.point()
	// which cases are ready is found out by a dry run
	var ready []int
	for i, c := range cases {
		if r.ready(c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = r.choose(len(ready)) // the language picks any
		}
		cases[ready[k]].try(r)
		return ready[k]
	}
	if hasDefault {
		return -1
	}
	t := r.cur
	fired := new(bool)
	for i, c := range cases {
		c.enqueue(r, t, i, fired)
	}
	r.block("a case of a select statement")
	cases[t.idx].finish(t)
	return t.idx
}

func (r *run) ready(c Case) bool {
	live := func(q []*waiter) bool {
		for _, w := range q {
			if w.fired == nil || !*w.fired {
				return true
			}
		}
		return false
	}
	dir, _, _, _ := c.real()
	m := caseChan(r, c)
	if m == nil {
		return false
	}
	if dir == 0 {
		return len(m.buf) > 0 || m.closed || live(m.sendq)
	}
	return m.closed || len(m.buf) < m.cap || live(m.recvq)
}

func caseChan(r *run, c Case) *channel {
	if n, ok := c.(interface{ isNil() bool }); ok && n.isNil() {
		return nil
	}
	return c.(interface{ chanOf(*run) *channel }).chanOf(r)
}
func (c *RecvCase[T]) isNil() bool { return c.ch == nil }
func (c *SendCase[T]) isNil() bool { return c.ch == nil }

// MapRanger replaces the range clause over a map
type MapRanger[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapRange[M ~map[K]V, K comparable, V any](m M) *MapRanger[K, V] {
	r := &MapRanger[K, V]{m: m}
	for k := range m {
		r.keys = append(r.keys, k)
	}
	if Controlled() {
		names := make([]string, len(r.keys))
		for i, k := range r.keys {
			names[i] = fmt.Sprint(k)
		}
		sort.Sort(&byName[K]{names, r.keys})
	}
	return r
}

type byName[K any] struct {
	names []string
	keys  []K
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName[K]) Swap(i, j int) {
	b.names[i], b.names[j] = b.names[j], b.names[i]
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
}

// MapVar and MapVars declare the variables of the clause, one for all rounds
func MapVar[M ~map[K]V, K comparable, V any](m M) (*MapRanger[K, V], K) {
	var k K
	return MapRange[M, K, V](m), k
}
func MapVars[M ~map[K]V, K comparable, V any](m M) (*MapRanger[K, V], K, V) {
	var k K
	var v V
	return MapRange[M, K, V](m), k, v
}
func MapVal[M ~map[K]V, K comparable, V any](m M) (*MapRanger[K, V], V) {
	var v V
	return MapRange[M, K, V](m), v
}
func (r *MapRanger[K, V]) Next(k *K, v *V) bool {
	for len(r.keys) > 0 {
		i := 0
		if c := cur; c != nil && c.cfg.Maps && len(r.keys) > 1 && c.preempted < c.cfg.Preemptions && !c.looking && !c.aborting {
			if i = c.choose(len(r.keys)); i > 0 {
				c.preempted++
			}
		}
		key := r.keys[i]
		r.keys = append(append([]K{}, r.keys[:i]...), r.keys[i+1:]...)
		val, ok := r.m[key]
		if !ok {
			continue // deleted meanwhile
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Block and Wake serve the locks of package vsync
type Waiting struct{ ts []*thread }

func Point() {
	if r := cur; r != nil {
		r.point()
	}
}
func (w *Waiting) Wait(why string) {
	w.ts = append(w.ts, cur.cur)
	cur.block(why)
}
func (w *Waiting) WakeAll() {
	for _, t := range w.ts {
		cur.wake(t)
	}
	w.ts = nil
}

// Aborting is true while the goroutines of a finished run are being ended
func Aborting() bool { return cur != nil && cur.aborting }

// Run identifies the controlled run
func Run() any {
	if cur == nil {
		return nil
	}
	return cur
}
