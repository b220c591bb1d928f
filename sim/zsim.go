// Package zsim is the deterministic simulator.
//
// It is compiled into the instrumented copy of go-slog (see tools/prep) as
// github.com/madkins23/go-slog/internal/zsim.  Simulated threads ("tasks") are real goroutines of
// which exactly one, the holder of the token, ever runs; every point at which the token may change
// hands is a call into this package, and who gets it is decided by one seeded stream or by an
// explicit trace.
//
// The package is built without race instrumentation, and its hand-offs are hidden from the race
// detector, so a race report of the detector means that the code under test itself does not order
// the two accesses -- under the schedule the simulator chose.
package zsim

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Mode is a scheduling strategy.
type Mode int

const (
	ModeReplay     Mode = iota // follow Trace; never pre-empt otherwise
	ModeSequential             // no pre-emption; seeded choice when a task ends or blocks
	ModeUniform                // pre-empt at every point with a fixed probability
	ModePCT                    // random priorities with a few priority change points
	ModeSites                  // pre-empt only at a seeded subset of code sites
	ModeSync                   // pre-empt (almost) only at synchronisation and I/O
)

// Switch hands the token to task To when task T reaches its S-th point.
type Switch struct {
	T  int `json:"t"`
	S  int `json:"s"`
	To int `json:"to"`
}

// Config determines one execution.
type Config struct {
	Seed      uint64   `json:"seed"`
	Mode      Mode     `json:"mode"`
	P         float64  `json:"p"`         // ModeUniform, ModeSites, ModeSync: probability
	Depth     int      `json:"depth"`     // ModePCT: number of change points
	Length    int      `json:"length"`    // ModePCT: expected number of points
	EnvSeed   uint64   `json:"envseed"`   // seed for everything but the schedule: pools, map order
	Trace     []Switch `json:"trace"`     // ModeReplay
	MaxPoints int      `json:"maxpoints"` // bound on the number of points (progress)
}

// Kinds of violation that the simulator itself finds.
const (
	KindDeadlock   = "deadlock"
	KindNoProgress = "no-progress"
	KindPanic      = "panic"
)

// Result of one execution.
type Result struct {
	Points     int
	Switches   int
	Hash       uint64 // of the interleaving: sequence of (task, site) at every switch
	Trace      []Switch
	Kind       string // "", or the kind of failure
	Detail     string
	SimTime    time.Duration
	PoolFresh  int
	PoolReused int
	PoolOther  int // objects handed to another task than the one which put them back
	Tasks      int
}

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stOutside // in an operation that really blocks
	stDone
)

type task struct {
	id      int
	name    string
	wake    chan struct{}
	state   int
	waitOn  unsafe.Pointer
	waitK   int
	wakeAt  int64
	step    int
	prio    uint64
	trace   []Switch // this task's part of cfg.Trace
	traceIx int
	f       func()
	back    int32
	goid    uint64
}

// Sim is one simulated execution.
type Sim struct {
	cfg     Config
	tasks   []*task
	cur     *task
	rng     uint64
	env     uint64
	now     int64
	skew    int64
	res     Result
	change  []int
	done    chan struct{}
	join    uint64
	pending []unsafe.Pointer // rwmutexes with a waiting writer
	ended   bool
	live    int
}

// S is the current simulation, nil outside of Run.
var S *Sim

// NumSites and site counters, sized by the generated table.
var (
	siteHits [1 << 16]uint32
	sitePre  [1 << 16]uint32
)

const (
	siteSync  = 60000 // + kind
	siteIO    = 61000
	siteUser  = 62000
	siteTick  = 1000 // nanoseconds per point
	startTime = 1_700_000_000_000_000_000
)

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	z := x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func next(p *uint64) uint64 {
	*p += 0x9E3779B97F4A7C15
	z := *p
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// New prepares an execution.
func New(cfg Config) *Sim {
	if cfg.MaxPoints == 0 {
		cfg.MaxPoints = 1_000_000
	}
	s := &Sim{cfg: cfg, rng: mix(cfg.Seed ^ 0x5EED), env: mix(cfg.EnvSeed ^ 0xE4), done: make(chan struct{}, 1), now: startTime}
	if cfg.Mode == ModePCT {
		n := cfg.Length
		if n < 10 {
			n = 10
		}
		for i := 0; i < cfg.Depth; i++ {
			s.change = append(s.change, int(next(&s.rng)%uint64(n)))
		}
	}
	runtime.ZsimSeed(mix(cfg.EnvSeed ^ 0x3A9))
	return s
}

func (s *Sim) newTask(name string, f func()) *task {
	t := &task{id: len(s.tasks), name: name, wake: make(chan struct{}, 1), f: f}
	for _, sw := range s.cfg.Trace {
		if sw.T == t.id {
			t.trace = append(t.trace, sw)
		}
	}
	t.prio = next(&s.rng) | 1<<63
	s.tasks = append(s.tasks, t)
	s.live++
	go s.taskMain(t)
	return t
}

func (s *Sim) taskMain(t *task) {
	runtime.RaceDisable()
	<-t.wake
	runtime.RaceEnable()
	runtime.ZsimEnter()
	t.goid = runtime.ZsimGoid()
	defer s.finish(t)
	t.f()
}

func (s *Sim) finish(t *task) {
	if r := recover(); r != nil {
		buf := make([]byte, 8192)
		n := runtime.Stack(buf, false)
		s.fail(KindPanic, fmt.Sprintf("task %s: %v\n%s", t.name, r, buf[:n]))
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(&s.join))
	t.state = stDone
	s.live--
	runtime.ZsimLeave()
	if s.ended {
		return
	}
	s.passOn(t)
}

func (s *Sim) fail(kind, detail string) {
	if s.res.Kind == "" {
		s.res.Kind, s.res.Detail = kind, detail
	}
}

// Spawn adds a task before Run, or (from a task) while running.
func (s *Sim) Spawn(name string, f func()) { s.newTask(name, f) }

// Run executes all tasks to completion, from the main goroutine.
func (s *Sim) Run() Result {
	if len(s.tasks) == 0 {
		return s.res
	}
	S = s
	sync.ZsimPoint = syncPoint
	sync.ZsimBlock = syncBlock
	sync.ZsimWake = syncWake
	sync.ZsimPendingWriter = pendingWriter
	sync.ZsimWriterPending = writerPending
	sync.ZsimCondWait = condWait
	sync.ZsimCondWake = condWake
	time.ZsimNow = Now
	first := s.pick(nil)
	s.hash(first.id, -1)
	runtime.RaceDisable()
	s.cur = first
	first.wake <- struct{}{}
	<-s.done
	runtime.RaceEnable()
	runtime.RaceAcquire(unsafe.Pointer(&s.join))
	S = nil
	s.res.SimTime = time.Duration(s.now - startTime)
	s.res.Tasks = len(s.tasks)
	return s.res
}

func (s *Sim) hash(id int, site int) {
	s.res.Hash = (s.res.Hash ^ uint64(id+1)<<20 ^ uint64(site+2)) * 0x100000001b3
	s.res.Hash ^= s.res.Hash >> 29
}

func (s *Sim) runnable(t *task) bool {
	return t.state == stRunnable || (t.state == stSleeping && t.wakeAt <= s.now) ||
		(t.state == stOutside && atomic.LoadInt32(&t.back) == 1)
}

// pick chooses the next task by the strategy.  cur is nil at the start.
// It returns nil if no task is runnable.
func (s *Sim) pick(cur *task) *task {
	n := 0
	var first, best *task
	for _, t := range s.tasks {
		if t != cur && s.runnable(t) {
			n++
			if first == nil {
				first = t
			}
			if best == nil || t.prio > best.prio {
				best = t
			}
		}
	}
	if n == 0 {
		return nil
	}
	switch s.cfg.Mode {
	case ModeReplay:
		return first
	case ModePCT:
		return best
	}
	if n == 1 {
		return first
	}
	k := int(next(&s.rng) % uint64(n))
	for _, t := range s.tasks {
		if t != cur && s.runnable(t) {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return first
}

func (s *Sim) scripted(t *task) *task {
	for t.traceIx < len(t.trace) && t.trace[t.traceIx].S < t.step {
		t.traceIx++
	}
	if t.traceIx < len(t.trace) && t.trace[t.traceIx].S == t.step {
		to := t.trace[t.traceIx].To
		if to >= 0 && to < len(s.tasks) && to != t.id && s.runnable(s.tasks[to]) {
			return s.tasks[to]
		}
	}
	return nil
}

// Y is a potential pre-emption point at a statement of the code under test.
func Y(site int) {
	if runtime.ZsimIsTask() {
		S.point(site)
	}
}

func (s *Sim) point(site int) {
	t := s.cur
	t.step++
	s.res.Points++
	s.now += siteTick
	if site >= 0 && site < len(siteHits) {
		siteHits[site]++
	}
	if s.res.Points > s.cfg.MaxPoints {
		s.overrun()
	}
	var to *task
	switch s.cfg.Mode {
	case ModeReplay:
		to = s.scripted(t)
	case ModeSequential:
	case ModeUniform:
		if s.chance(s.cfg.P) {
			to = s.pick(t)
		}
	case ModeSites:
		if mix(uint64(site)*0x9E37^s.cfg.Seed)%8 == 0 && s.chance(s.cfg.P) {
			to = s.pick(t)
		}
	case ModeSync:
		if site >= siteSync {
			if s.chance(s.cfg.P) {
				to = s.pick(t)
			}
		} else if s.chance(0.01) {
			to = s.pick(t)
		}
	case ModePCT:
		for i, c := range s.change {
			if c == s.res.Points {
				t.prio = uint64(i + 1) // lower than every initial priority
			}
		}
		if best := s.pick(t); best != nil && best.prio > t.prio {
			to = best
		}
	}
	if to != nil && to != t {
		if site >= 0 && site < len(sitePre) {
			sitePre[site]++
		}
		s.record(t, to, site)
		s.handOver(t, to)
	}
}

func (s *Sim) chance(p float64) bool {
	return float64(next(&s.rng)>>11)/(1<<53) < p
}

func (s *Sim) record(t, to *task, site int) {
	s.res.Switches++
	s.hash(to.id, site)
	s.res.Trace = append(s.res.Trace, Switch{T: t.id, S: t.step, To: to.id})
}

// handOver gives the token to another task and waits to get it back.
func (s *Sim) handOver(t, to *task) {
	s.cur = to
	to.state = stRunnable
	runtime.ZsimLeave()
	runtime.RaceDisable()
	to.wake <- struct{}{}
	<-t.wake
	runtime.RaceEnable()
	runtime.ZsimEnter()
}

// choose finds a successor when t cannot go on.
func (s *Sim) choose(t *task) *task {
	var to *task
	if s.cfg.Mode == ModeReplay {
		to = s.scripted(t)
	}
	for to == nil {
		to = s.pick(t)
		if to == nil && s.runnable(t) {
			return t
		}
		if to == nil {
			// Nothing is runnable: let time pass.
			var min int64
			for _, o := range s.tasks {
				if o.state == stSleeping && (min == 0 || o.wakeAt < min) {
					min = o.wakeAt
				}
			}
			if min == 0 {
				return nil
			}
			s.now = min
		}
	}
	return to
}

// passOn gives the token away for good (t is done).
func (s *Sim) passOn(t *task) {
	t.step++
	to := s.choose(t)
	if to == nil {
		s.finishRun()
		return
	}
	s.record(t, to, -3)
	s.cur = to
	to.state = stRunnable
	runtime.RaceDisable()
	to.wake <- struct{}{}
	runtime.RaceEnable()
}

// finishRun ends the execution: nothing is runnable any more.
func (s *Sim) finishRun() {
	if s.live > 0 && s.outside() {
		go s.idle() // a task in a really blocking operation will carry on
		return
	}
	if s.live > 0 {
		text := ""
		for _, o := range s.tasks {
			if o.state == stBlocked {
				text += fmt.Sprintf("task %s waits for %s; ", o.name, waitName(o.waitK))
			}
		}
		s.fail(KindDeadlock, text)
	}
	s.end()
}

func (s *Sim) end() {
	s.ended = true
	runtime.RaceDisable()
	s.done <- struct{}{}
	runtime.RaceEnable()
}

func (s *Sim) outside() bool {
	for _, t := range s.tasks {
		if t.state == stOutside {
			return true
		}
	}
	return false
}

// overrun ends an execution that made too many steps.
func (s *Sim) overrun() {
	if s.ended {
		return
	}
	buf := make([]byte, 4096)
	n := runtime.Stack(buf, false)
	s.fail(KindNoProgress, fmt.Sprintf("no end after %d points; task %s at\n%s", s.res.Points, s.cur.name, buf[:n]))
	s.ended = true
	runtime.ZsimLeave()
	runtime.RaceDisable()
	s.done <- struct{}{}
	select {} // this task never runs again; the process reports and ends
}

func waitName(k int) string {
	switch k {
	case 1:
		return "Mutex.Lock"
	case 2:
		return "RWMutex.RLock"
	case 3:
		return "RWMutex.Lock"
	case 4:
		return "WaitGroup.Wait"
	case 5:
		return "Cond.Wait"
	}
	return "?"
}

// ---------------------------------------------------------------------------- sync

func syncPoint(kind int, p unsafe.Pointer) { S.point(siteSync + kind) }

func syncBlock(kind int, p unsafe.Pointer) {
	s := S
	t := s.cur
	t.state, t.waitOn, t.waitK = stBlocked, p, kind
	s.leave(t, siteSync+10+kind)
}

// leave gives up the token until the task is chosen again.
func (s *Sim) leave(t *task, site int) {
	t.step++
	s.res.Points++
	to := s.choose(t)
	if to == t {
		t.state = stRunnable
		return
	}
	if to == nil {
		runtime.ZsimLeave()
		s.cur = nil
		s.finishRun()
		runtime.RaceDisable()
		<-t.wake // after a deadlock, for ever: the main goroutine reports it
		runtime.RaceEnable()
		runtime.ZsimEnter()
		return
	}
	s.record(t, to, site)
	s.handOver(t, to)
}

func syncWake(p unsafe.Pointer) {
	s := S
	for _, t := range s.tasks {
		if t.state == stBlocked && t.waitOn == p && t.waitK != 5 {
			t.state, t.waitOn = stRunnable, nil
		}
	}
	s.point(siteSync + 20)
}

func pendingWriter(p unsafe.Pointer) bool {
	for _, q := range S.pending {
		if q == p {
			return true
		}
	}
	return false
}

func writerPending(p unsafe.Pointer, d int) {
	s := S
	if d > 0 {
		s.pending = append(s.pending, p)
		return
	}
	for i, q := range s.pending {
		if q == p {
			s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
			break
		}
	}
}

func condWait(p unsafe.Pointer, l sync.Locker) {
	s := S
	t := s.cur
	t.waitOn, t.waitK = p, 5
	t.state = stRunnable
	// Registered before the lock is released, as sync.Cond does.
	condList = append(condList, condEntry{p, t, false})
	l.Unlock()
	for {
		woken := false
		for i := range condList {
			if condList[i].t == t && condList[i].p == p {
				if condList[i].woken {
					condList = append(condList[:i:i], condList[i+1:]...)
					woken = true
				}
				break
			}
		}
		if woken {
			break
		}
		t.state, t.waitOn, t.waitK = stBlocked, p, 5
		s.leave(t, siteSync+15)
	}
	l.Lock()
}

type condEntry struct {
	p     unsafe.Pointer
	t     *task
	woken bool
}

var condList []condEntry

func condWake(p unsafe.Pointer, all bool) {
	for i := range condList {
		if condList[i].p == p && !condList[i].woken {
			condList[i].woken = true
			t := condList[i].t
			if t.state == stBlocked && t.waitOn == p && t.waitK == 5 {
				t.state, t.waitOn = stRunnable, nil
			}
			if !all {
				break
			}
		}
	}
	S.point(siteSync + 21)
}

// Pool replaces sync.Pool in the code under test: seeded reuse, real happens-before edges.
type Pool struct {
	New   func() any
	items []poolItem
	real  sync.Pool
}

type poolItem struct {
	x    any
	by   int
	sync *uint64
}

// pools that hold something, to be emptied between executions.
var pools []*Pool

// ResetPools empties all pools: every execution starts from the same state.
func ResetPools() {
	for _, p := range pools {
		p.items = nil
	}
	pools = pools[:0]
	condList = nil
}

// Get returns a pooled or a new object, as the seed decides.
func (p *Pool) Get() any {
	if !runtime.ZsimIsTask() {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	s := S
	s.point(siteSync + 30)
	if n := len(p.items); n > 0 {
		r := next(&s.env)
		i := n - 1
		switch {
		case r%8 == 0: // pretend that the pool is empty
			i = -1
		case r%4 == 1:
			i = int((r >> 8) % uint64(n))
		}
		if i >= 0 {
			it := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			runtime.RaceAcquire(unsafe.Pointer(it.sync))
			s.res.PoolReused++
			if it.by != s.cur.id {
				s.res.PoolOther++
			}
			return it.x
		}
	}
	s.res.PoolFresh++
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an object back.
func (p *Pool) Put(x any) {
	if !runtime.ZsimIsTask() || x == nil {
		return
	}
	s := S
	s.point(siteSync + 31)
	if len(p.items) == 0 {
		known := false
		for _, q := range pools {
			known = known || q == p
		}
		if !known {
			pools = append(pools, p)
		}
	}
	if next(&s.env)%16 == 0 {
		return // a pool may drop anything at any time
	}
	it := poolItem{x: x, by: s.cur.id, sync: new(uint64)}
	runtime.RaceReleaseMerge(unsafe.Pointer(it.sync))
	p.items = append(p.items, it)
	s.point(siteSync + 32)
}

// ---------------------------------------------------------------------------- tasks, time

// IsTask reports whether the caller is the running simulated thread.
func IsTask() bool { return runtime.ZsimIsTask() }

// TaskID returns the id of the running task, or -1.
func TaskID() int {
	if runtime.ZsimIsTask() {
		return S.cur.id
	}
	return -1
}

// Step returns the number of points executed so far: the global event sequence number.
func Step() int {
	if S == nil {
		return 0
	}
	return S.res.Points
}

// Go replaces the go statement in the code under test.
func Go(f func()) {
	if !runtime.ZsimIsTask() {
		go f()
		return
	}
	S.newTask(fmt.Sprintf("go-%d", len(S.tasks)), f)
	S.point(siteUser + 2)
}

// Outside and Rejoin bracket an operation that may really block (a channel operation, which go-slog
// does not use; a changed go-slog may).  The token is free meanwhile.  When the operation ends is
// not up to the simulator, so such an execution is sound but may not replay exactly.
func Outside() bool {
	if !runtime.ZsimIsTask() {
		return false
	}
	s := S
	t := s.cur
	atomic.StoreInt32(&t.back, 0)
	t.state = stOutside
	t.step++
	to := s.choose(t)
	runtime.ZsimLeave()
	if to == nil {
		s.cur = nil
		go s.idle()
		return true
	}
	s.record(t, to, siteSync+40)
	s.cur = to
	to.state = stRunnable
	runtime.RaceDisable()
	to.wake <- struct{}{}
	runtime.RaceEnable()
	return true
}

// Rejoin ends what Outside began.
func Rejoin(was bool) {
	if !was {
		return
	}
	var t *task
	for _, o := range S.tasks {
		if o.goid == runtime.ZsimGoid() {
			t = o
		}
	}
	runtime.RaceDisable()
	atomic.StoreInt32(&t.back, 1)
	<-t.wake
	runtime.RaceEnable()
	runtime.ZsimEnter()
	t.state = stRunnable
}

// idle waits for a task to come back from a really blocking operation.
func (s *Sim) idle() {
	runtime.RaceDisable()
	for i := 0; i < 200_000; i++ {
		for _, t := range s.tasks {
			if t.state == stOutside && atomic.LoadInt32(&t.back) == 1 {
				s.cur = t
				t.state = stRunnable
				t.wake <- struct{}{}
				return
			}
		}
		time.Sleep(50 * time.Microsecond)
	}
	s.fail(KindDeadlock, "a task never returned from a channel operation")
	s.end()
}

// User is a pre-emption point placed by a harness; kind distinguishes them.
func User(kind int) { Y(siteUser + 10 + kind) }

// Sleep lets simulated time pass.
func Sleep(d time.Duration) {
	if !runtime.ZsimIsTask() {
		return
	}
	s := S
	t := s.cur
	t.state, t.wakeAt = stSleeping, s.now+int64(d)
	s.leave(t, siteSync+41)
	t.state = stRunnable
}

// Skew shifts the clock that the code under test reads (forwards or backwards).
func Skew(d time.Duration) {
	if S != nil {
		S.skew += int64(d)
	}
}

// Now is the simulated clock.
func Now() time.Time {
	if S == nil {
		return time.Unix(0, startTime).UTC()
	}
	return time.Unix(0, S.now+S.skew).UTC()
}

// Env draws from the environment stream.
func Env(n int) int {
	if S == nil || n <= 0 {
		return 0
	}
	return int(next(&S.env) % uint64(n))
}

// SiteStats returns how many sites were reached, and at how many a pre-emption happened.
func SiteStats() (hit, pre int) {
	for i := 0; i < siteSync; i++ {
		if siteHits[i] > 0 {
			hit++
		}
		if sitePre[i] > 0 {
			pre++
		}
	}
	return
}

// ResetStats sets the counters of sites and faults to zero.
func ResetStats() {
	siteHits, sitePre = [1 << 16]uint32{}, [1 << 16]uint32{}
	FaultCounts = [len(faultNames)]int{}
}

// RaceErrors counts the reports of the race detector so far.
func RaceErrors() int { return runtime.RaceErrors() }

// Recv and Recv2 replace the receive operator.
func Recv[T any](c <-chan T) T {
	o := Outside()
	x := <-c
	Rejoin(o)
	return x
}

// Recv2 is the form with two results.
func Recv2[T any](c <-chan T) (T, bool) {
	o := Outside()
	x, ok := <-c
	Rejoin(o)
	return x, ok
}
