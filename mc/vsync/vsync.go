// Package vsync replaces "sync" in the instrumented build. Without an active
// scheduler every type behaves as its sync counterpart; with one, registered
// goroutines run one at a time and every acquire is a scheduling point.
package vsync

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond                { return sync.NewCond(l) }
func OnceFunc(f func()) func()              { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T  { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// ---------------------------------------------------------------- scheduler

type thread struct {
	id      int
	name    string
	ch      *gate
	pred    func() bool // nil: runnable
	op      string
	done    bool
	started bool
	sync    byte // happens-before to whoever collects the results
}

// Choice is one scheduling decision.
type Choice struct {
	Options []int // thread ids, first is the default
	Pick    int   // index in Options
	Cost    []int // preemption cost of each option
	Op      string
}

type Sched struct {
	threads  []*thread
	byGo     atomic.Pointer[goEntry] // a list: neither locks nor maps, which the race detector would see
	cur      *thread
	prefix   []int
	Trace    []Choice
	Deadlock bool
	Blocked  []string
	Diverged bool
	Stuck    bool
	Panics   []string
	aborted  atomic.Bool
	finish   chan struct{}
	finished bool
	steps    int
	MaxSteps int
	TooLong  bool
	progress int64 // bumped when shared storage may have been released
	Log      []string
	KeepLog  bool
	YieldOnUnlock bool
}

type goEntry struct {
	id   int64
	t    *thread
	next *goEntry
}

var active atomic.Pointer[Sched]

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	v, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return v
}

func me() (*Sched, *thread) {
	s := active.Load()
	if s == nil {
		return nil, nil
	}
	id := goid()
	for e := s.byGo.Load(); e != nil; e = e.next {
		if e.id == id {
			return s, e.t
		}
	}
	return nil, nil
}

// Active tells whether the caller runs under a scheduler.
func Active() bool { s, _ := me(); return s != nil }

// Run executes the bodies under the schedule prefix; after it, default choices.
func Run(prefix []int, unlockPoints bool, maxSteps int, names []string, bodies ...func()) *Sched {
	s := &Sched{prefix: prefix, finish: make(chan struct{}), MaxSteps: maxSteps, YieldOnUnlock: unlockPoints}
	for i, b := range bodies {
		n := ""
		if i < len(names) {
			n = names[i]
		}
		s.spawn(n, b)
	}
	active.Store(s)
	s.cur = nil
	first := s.pick("start")
	if first != nil {
		first.ch.signal()
	}
	select {
	case <-s.finish:
	case <-time.After(90 * time.Second):
		s.Stuck = true
	}
	s.aborted.Store(true)
	active.Store(nil)
	// release parked goroutines
	for _, t := range s.threads {
		if !t.done {
			t.ch.signal()
		}
		acquire(&t.sync)
	}
	return s
}

func (s *Sched) spawn(name string, body func()) *thread {
	t := &thread{id: len(s.threads), name: name, ch: newGate()}
	s.threads = append(s.threads, t)
	ready := make(chan struct{})
	go func() {
		s.byGo.Store(&goEntry{goid(), t, s.byGo.Load()})
		close(ready)
		t.ch.wait()
		if s.aborted.Load() {
			return
		}
		t.started = true
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 4096)
				n := runtime.Stack(buf, false)
				s.Panics = append(s.Panics, sprint(r)+"\n"+string(buf[:n]))
			}
			if s.aborted.Load() {
				return
			}
			release(&t.sync)
			t.done = true
			s.progress++
			s.handoff()
		}()
		body()
	}()
	<-ready
	return t
}

func sprint(v any) string {
	switch x := v.(type) {
	case error:
		return x.Error()
	case string:
		return x
	}
	return "panic"
}

func (s *Sched) enabled() []*thread {
	var l []*thread
	for _, t := range s.threads {
		if !t.done && (t.pred == nil || t.pred()) {
			l = append(l, t)
		}
	}
	return l
}

// pick chooses the next thread; nil when nothing can run.
func (s *Sched) pick(op string) *thread {
	en := s.enabled()
	if len(en) == 0 {
		return nil
	}
	s.steps++
	if s.MaxSteps > 0 && s.steps > s.MaxSteps {
		s.TooLong = true
		return nil
	}
	var opts, cost []int
	curIn := false
	if s.cur != nil && !s.cur.done {
		for _, t := range en {
			if t == s.cur {
				curIn = true
			}
		}
	}
	if curIn {
		opts, cost = append(opts, s.cur.id), append(cost, 0)
	}
	for _, t := range en {
		if curIn && t == s.cur {
			continue
		}
		opts = append(opts, t.id)
		if curIn {
			cost = append(cost, 1)
		} else {
			cost = append(cost, 0)
		}
	}
	pick := 0
	if len(opts) > 1 {
		k := len(s.Trace)
		if k < len(s.prefix) {
			pick = s.prefix[k]
			if pick >= len(opts) {
				s.Diverged = true
				pick = 0
			}
		}
		s.Trace = append(s.Trace, Choice{Options: opts, Pick: pick, Cost: cost, Op: op})
	}
	t := s.threads[opts[pick]]
	s.cur = t
	return t
}

func (s *Sched) end() {
	if !s.finished {
		s.finished = true
		close(s.finish)
	}
}

// handoff is called by a finished thread.
func (s *Sched) handoff() {
	n := s.pick("end")
	if n == nil {
		s.conclude()
		return
	}
	n.pred = nil
	n.ch.signal()
}

func (s *Sched) conclude() {
	for _, t := range s.threads {
		if !t.done && !s.TooLong {
			s.Deadlock = true
			s.Blocked = append(s.Blocked, t.name+":"+t.op)
		}
	}
	s.end()
}

func (s *Sched) yield(t *thread, op string, pred func() bool) {
	if s.aborted.Load() {
		return
	}
	t.op, t.pred = op, pred
	n := s.pick(op)
	if n == t {
		t.pred = nil
		if s.KeepLog {
			s.Log = append(s.Log, t.name+" "+op)
		}
		return
	}
	if n == nil {
		s.conclude()
	} else {
		n.pred = nil
		n.ch.signal()
	}
	t.ch.wait()
	if s.aborted.Load() {
		runtime.Goexit()
	}
	t.pred = nil
}

// Point is an always-enabled scheduling point.
func Point(op string) {
	if s, t := me(); s != nil {
		s.yield(t, op, nil)
	}
}

// Progress records that shared storage may have been released.
func Progress() {
	if s, _ := me(); s != nil {
		s.progress++
	}
}

// Progress0 is Progress when ok.
func Progress0(ok bool) {
	if ok {
		Progress()
	}
}

// WaitProgress blocks the calling thread until another thread has released
// storage; it returns false when no other thread can make progress.
func WaitProgress(op string) bool {
	s, t := me()
	if s == nil || s.aborted.Load() {
		return false
	}
	start := s.progress
	giveup := false
	s.yield(t, op, func() bool {
		if s.progress > start {
			return true
		}
		// enabled (to give up) only when nobody else is runnable
		for _, o := range s.threads {
			if o != t && !o.done && (o.pred == nil || (!o.waiting() && o.pred())) {
				return false
			}
		}
		giveup = true
		return true
	})
	return !giveup || s.progress > start
}

func (t *thread) waiting() bool { return len(t.op) > 4 && t.op[:4] == "busy" }

// Go starts a controlled goroutine when called from one, a plain one otherwise.
func Go(f func()) {
	s, t := me()
	if s == nil {
		go f()
		return
	}
	if s.aborted.Load() {
		return
	}
	s.spawn(t.name+"/go", f)
	s.yield(t, "go", nil)
}

// ---------------------------------------------------------------- primitives

type Mutex struct {
	mu     sync.Mutex
	locked bool
	w      byte
}

func (m *Mutex) Lock() {
	s, t := me()
	if s == nil {
		m.mu.Lock()
		return
	}
	if s.aborted.Load() {
		return
	}
	s.yield(t, "lock", func() bool { return !m.locked })
	m.locked = true
	acquire(&m.w)
}

func (m *Mutex) TryLock() bool {
	s, t := me()
	if s == nil {
		return m.mu.TryLock()
	}
	s.yield(t, "trylock", nil)
	if m.locked {
		return false
	}
	m.locked = true
	acquire(&m.w)
	return true
}

func (m *Mutex) Unlock() {
	s, t := me()
	if s == nil {
		if a := active.Load(); a == nil || !m.locked {
			m.mu.Unlock()
		}
		return
	}
	if s.aborted.Load() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	release(&m.w)
	m.locked = false
	if s.YieldOnUnlock {
		s.yield(t, "unlock", nil)
	}
}

type RWMutex struct {
	mu      sync.RWMutex
	readers int
	writer  bool
	w, r    byte
	pending int // writers waiting: readers queue behind them, as in sync
}

func (m *RWMutex) Lock() {
	s, t := me()
	if s == nil {
		m.mu.Lock()
		return
	}
	if s.aborted.Load() {
		return
	}
	// the call itself is a point; once made, the writer is announced
	s.yield(t, "wlock", nil)
	if m.writer || m.readers > 0 {
		m.pending++
		s.yield(t, "wlock-wait", func() bool { return !m.writer && m.readers == 0 })
		m.pending--
	}
	m.writer = true
	acquire(&m.w)
	acquire(&m.r)
}

func (m *RWMutex) Unlock() {
	s, t := me()
	if s == nil {
		if active.Load() == nil || !m.writer {
			m.mu.Unlock()
		}
		return
	}
	if s.aborted.Load() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(&m.w)
	m.writer = false
	if s.YieldOnUnlock {
		s.yield(t, "wunlock", nil)
	}
}

func (m *RWMutex) RLock() {
	s, t := me()
	if s == nil {
		m.mu.RLock()
		return
	}
	if s.aborted.Load() {
		return
	}
	s.yield(t, "rlock", func() bool { return !m.writer && m.pending == 0 })
	m.readers++
	acquire(&m.w)
}

func (m *RWMutex) RUnlock() {
	s, t := me()
	if s == nil {
		if active.Load() == nil || m.readers == 0 {
			m.mu.RUnlock()
		}
		return
	}
	if s.aborted.Load() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	release(&m.r)
	m.readers--
	if s.YieldOnUnlock {
		s.yield(t, "runlock", nil)
	}
}

func (m *RWMutex) TryLock() bool {
	s, t := me()
	if s == nil {
		return m.mu.TryLock()
	}
	s.yield(t, "trywlock", nil)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	acquire(&m.w)
	acquire(&m.r)
	return true
}

func (m *RWMutex) TryRLock() bool {
	s, t := me()
	if s == nil {
		return m.mu.TryRLock()
	}
	s.yield(t, "tryrlock", nil)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	acquire(&m.w)
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	wg sync.WaitGroup
	n  int64
	w  byte
}

func (w *WaitGroup) Add(d int) {
	if s, _ := me(); s != nil {
		w.n += int64(d)
		return
	}
	w.wg.Add(d)
}
func (w *WaitGroup) Done() {
	if s, _ := me(); s != nil {
		release(&w.w)
		w.n--
		if w.n < 0 && !s.aborted.Load() {
			panic("sync: negative WaitGroup counter")
		}
		return
	}
	w.wg.Done()
}
func (w *WaitGroup) Wait() {
	if s, t := me(); s != nil {
		if s.aborted.Load() {
			return
		}
		s.yield(t, "wgwait", func() bool { return w.n <= 0 })
		acquire(&w.w)
		return
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// ---------------------------------------------------------------- explorer

// Explore enumerates every schedule of at most bound preemptions. mk builds a
// fresh instance and returns its thread bodies; after inspects the finished
// run. It stops when after or more returns false.
type ExploreStats struct {
	Schedules, Steps, Points int
	Complete                 bool
	MaxTrace                 int
}

func Explore(bound int, unlockPoints bool, maxSteps int, names []string, mk func() []func(), after func(s *Sched, prefix []int) bool, more func() bool) ExploreStats {
	var st ExploreStats
	type frame struct{ prefix []int }
	stack := []frame{{nil}}
	for len(stack) > 0 {
		if more != nil && !more() {
			return st
		}
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		s := Run(f.prefix, unlockPoints, maxSteps, names, mk()...)
		st.Schedules++
		st.Steps += s.steps
		st.Points += len(s.Trace)
		if len(s.Trace) > st.MaxTrace {
			st.MaxTrace = len(s.Trace)
		}
		full := make([]int, len(s.Trace))
		for i, c := range s.Trace {
			full[i] = c.Pick
		}
		if !after(s, full) {
			return st
		}
		// children: alternatives at every point at or after the prefix
		used := 0
		for i, c := range s.Trace {
			if i >= len(f.prefix) {
				for k := len(c.Options) - 1; k > 0; k-- {
					if used+c.Cost[k] <= bound {
						p := append(append([]int{}, full[:i]...), k)
						stack = append(stack, frame{p})
					}
				}
			}
			used += c.Cost[c.Pick]
		}
	}
	st.Complete = true
	return st
}
