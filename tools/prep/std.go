package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Patches to the Go standard library, applied through the build overlay only: no file of the Go
// installation changes.
// They put the last sources of nondeterminism behind seams owned by the simulator:
// the runtime's random numbers (map iteration order, map hash seeds), sync primitives (blocking),
// sync.Pool (object reuse) and the clock.
// Each takes effect only on a goroutine that currently holds the simulator's token.

type stdPatch struct {
	file string
	reps [][2]string // old (must occur exactly once), new
}

var stdPatches = []stdPatch{
	{"runtime/rand.go", [][2]string{
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif x, ok := zsimRand(); ok {\n\t\treturn x\n\t}\n"},
	}},
	{"runtime/alg.go", [][2]string{
		{"		key[i] = bootstrapRand()\n", "		key[i] = uint64(i+1) * 0x9E3779B97F4A7C15\n"},
		{"		hashkey[i] = uintptr(bootstrapRand())\n", "		hashkey[i] = uintptr(uint64(i+1) * 0x9E3779B97F4A7C15)\n"},
	}},
	{"sync/mutex.go", [][2]string{
		{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif runtime.ZsimIsTask() {\n\t\tZsimPoint(1, unsafe.Pointer(m))\n\t\tfor !m.TryLock() {\n\t\t\tZsimBlock(1, unsafe.Pointer(m))\n\t\t}\n\t\treturn\n\t}\n"},
		{"func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n\tif runtime.ZsimIsTask() {\n\t\tdefer ZsimWake(unsafe.Pointer(m))\n\t}\n"},
		{"import (\n", "import (\n\t\"runtime\"\n"},
	}},
	{"sync/rwmutex.go", [][2]string{
		{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif runtime.ZsimIsTask() {\n\t\tZsimPoint(2, unsafe.Pointer(rw))\n\t\tfor ZsimPendingWriter(unsafe.Pointer(rw)) || !rw.TryRLock() {\n\t\t\tZsimBlock(2, unsafe.Pointer(rw))\n\t\t}\n\t\treturn\n\t}\n"},
		{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tif runtime.ZsimIsTask() {\n\t\tdefer ZsimWake(unsafe.Pointer(rw))\n\t}\n"},
		{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif runtime.ZsimIsTask() {\n\t\tZsimPoint(3, unsafe.Pointer(rw))\n\t\tif !rw.TryLock() {\n\t\t\tZsimWriterPending(unsafe.Pointer(rw), 1)\n\t\t\tfor !rw.TryLock() {\n\t\t\t\tZsimBlock(3, unsafe.Pointer(rw))\n\t\t\t}\n\t\t\tZsimWriterPending(unsafe.Pointer(rw), -1)\n\t\t}\n\t\treturn\n\t}\n"},
		{"func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n\tif runtime.ZsimIsTask() {\n\t\tdefer ZsimWake(unsafe.Pointer(rw))\n\t}\n"},
		{"import (\n", "import (\n\t\"runtime\"\n"},
	}},
	{"sync/waitgroup.go", [][2]string{
		{"func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n\tif runtime.ZsimIsTask() {\n\t\tdefer ZsimWake(unsafe.Pointer(wg))\n\t}\n"},
		{"func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tif runtime.ZsimIsTask() {\n\t\tZsimPoint(4, unsafe.Pointer(wg))\n\t\tfor int32(wg.state.Load()>>32) > 0 {\n\t\t\tZsimBlock(4, unsafe.Pointer(wg))\n\t\t}\n\t}\n"},
		{"import (\n", "import (\n\t\"runtime\"\n"},
	}},
	// sync.Map holds its lock only within its own code, where no simulated thread is ever pre-empted;
	// how often it does depends on what has been cached before, so it must not count as a point.
	{"sync/map.go", [][2]string{{"	mu Mutex\n", "	mu zsimRawMutex\n"}}},
	{"sync/cond.go", [][2]string{
		{"	t := runtime_notifyListAdd(&c.notify)\n", "	if runtime.ZsimIsTask() {\n\t\tZsimCondWait(unsafe.Pointer(c), c.L)\n\t\treturn\n\t}\n	t := runtime_notifyListAdd(&c.notify)\n"},
		{"	runtime_notifyListNotifyOne(&c.notify)\n", "	if runtime.ZsimIsTask() {\n\t\tZsimCondWake(unsafe.Pointer(c), false)\n\t}\n	runtime_notifyListNotifyOne(&c.notify)\n"},
		{"	runtime_notifyListNotifyAll(&c.notify)\n", "	if runtime.ZsimIsTask() {\n\t\tZsimCondWake(unsafe.Pointer(c), true)\n\t}\n	runtime_notifyListNotifyAll(&c.notify)\n"},
		{"import (\n", "import (\n\t\"runtime\"\n"},
	}},
	// Every pool of the standard library and of the dependencies never reuses anything: reuse there
	// would add happens-before edges between the simulated threads (hiding races of the code under
	// test) in a way no seed decides.  The pools of go-slog itself become zsim.Pool (see rewrite.go).
	{"sync/pool.go", [][2]string{
		{"func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif runtime.ZsimIsTask() || runtime.ZsimGoid() == 1 {\n\t\treturn\n\t}\n"},
		{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif runtime.ZsimIsTask() || runtime.ZsimGoid() == 1 {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
	}},
	{"time/time.go", [][2]string{
		{"func Now() Time {\n", "func Now() Time {\n\tif ZsimInit {\n\t\treturn Unix(1_700_000_000, 0)\n\t}\n\tif ZsimNow != nil && runtime.ZsimIsTask() {\n\t\treturn ZsimNow()\n\t}\n"},
		{"import (\n", "import (\n\t\"runtime\"\n"},
	}},
	{"testing/testing.go", [][2]string{
		{"func (m *M) Run() (code int) {\n", "func (m *M) Run() (code int) {\n\tif ZsimRun != nil {\n\t\treturn ZsimRun()\n\t}\n"},
	}},
	// Benchmarks: the goroutines of RunParallel are simulated threads, and how often a benchmark
	// runs is decided by the harness instead of by the wall clock.
	{"testing/benchmark.go", [][2]string{
		{"func (b *B) Run(name string, f func(b *B)) bool {\n", "func (b *B) Run(name string, f func(b *B)) bool {\n\tif ZsimGo != nil && runtime.ZsimIsTask() {\n\t\treturn b.zsimRun(name, f)\n\t}\n"},
		{"	numProcs := b.parallelism * runtime.GOMAXPROCS(0)\n", "	numProcs := b.parallelism * runtime.GOMAXPROCS(0)\n\tstart := func(f func()) { go f() }\n\tif ZsimGo != nil && runtime.ZsimIsTask() {\n\t\tnumProcs, start = b.parallelism*ZsimProcs, ZsimGo\n\t}\n"},
		{"		go func() {\n			defer wg.Done()\n", "		start(func() {\n			defer wg.Done()\n"},
		{"			body(pb)\n		}()\n", "			body(pb)\n		})\n"},
	}},
}

var stdAdds = map[string]string{
	"runtime/zsim.go": `package runtime

// Added by the simulator's build overlay.

var (
	zsimG     *g     // goroutine holding the simulator's token
	zsimState uint64 // random stream of the simulated threads
	zsimMain  uint64 // random stream of the main goroutine
)

// ZsimEnter declares that the calling goroutine holds the token.
func ZsimEnter() { zsimG = getg() }

// ZsimLeave declares that no goroutine holds the token.
func ZsimLeave() { zsimG = nil }

// ZsimIsTask reports whether the calling goroutine holds the token.
//
//go:nosplit
func ZsimIsTask() bool { return zsimG != nil && getg() == zsimG }

// ZsimGoid identifies the calling goroutine.
func ZsimGoid() uint64 { return getg().goid }

// ZsimSeed seeds the two random streams.
func ZsimSeed(x uint64) { zsimState = x; zsimMain = x ^ 0xD1B54A32D192ED03 }

//go:nosplit
func zsimRand() (uint64, bool) {
	gp := getg()
	var p *uint64
	if zsimG != nil && gp == zsimG {
		p = &zsimState
	} else if gp.goid == 1 {
		p = &zsimMain
	} else {
		return 0, false
	}
	*p += 0x9E3779B97F4A7C15
	z := *p
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31), true
}
`,
	"sync/zsim.go": `package sync

import (
	"internal/race"
	"runtime"
	"sync/atomic"
	"unsafe"
)

// zsimRawMutex is a Mutex that the simulator does not see.
type zsimRawMutex struct{ m Mutex }

func (r *zsimRawMutex) Lock() {
	if !runtime.ZsimIsTask() {
		r.m.Lock()
		return
	}
	for !r.m.TryLock() {
		runtime.Gosched()
	}
}

func (r *zsimRawMutex) Unlock() {
	if race.Enabled {
		_ = r.m.state
		race.Release(unsafe.Pointer(&r.m))
	}
	new := atomic.AddInt32(&r.m.state, -mutexLocked)
	if new != 0 {
		r.m.unlockSlow(new)
	}
}

// Added by the simulator's build overlay: set by package zsim.
var (
	ZsimPoint         func(kind int, p unsafe.Pointer)
	ZsimBlock         func(kind int, p unsafe.Pointer)
	ZsimWake          func(p unsafe.Pointer)
	ZsimPendingWriter func(p unsafe.Pointer) bool
	ZsimWriterPending func(p unsafe.Pointer, d int)
	ZsimCondWait      func(p unsafe.Pointer, l Locker)
	ZsimCondWake      func(p unsafe.Pointer, all bool)
)
`,
	"testing/zsim.go": `package testing

import "sync"

// Added by the simulator's build overlay: set by a harness.
var (
	ZsimGo    func(func()) // starts a simulated thread
	ZsimProcs int          // stands for GOMAXPROCS
	ZsimN     []int        // the numbers of iterations that a benchmark is run with, in order
	ZsimSeen  func(b *B, n int, failed bool)
	ZsimRun   func() int // what running the tests comes to
)

// ZsimB returns what a benchmark function gets.
func ZsimB(name string) *B {
	return &B{common: common{signal: make(chan bool), name: name, bench: true}, parallelism: 1, N: 1}
}

// ZsimOutput returns what has been logged.
func (c *common) ZsimOutput() string { return string(c.output) }

func (b *B) zsimRun(name string, f func(b *B)) bool {
	sub := &B{common: common{signal: make(chan bool), name: b.name + "/" + name, parent: &b.common, level: b.level + 1, bench: true}, benchFunc: f}
	for _, n := range ZsimN {
		var wg sync.WaitGroup
		wg.Add(1)
		ZsimGo(func() {
			defer wg.Done()
			sub.N = n
			sub.parallelism = 1
			sub.ResetTimer()
			f(sub)
			sub.previousN = n
		})
		wg.Wait()
		if ZsimSeen != nil {
			ZsimSeen(sub, n, sub.failed)
		}
		if sub.failed {
			break
		}
	}
	return !sub.failed
}
`,
	"time/zsim.go": `package time

// ZsimNow is the simulator's clock.  Added by the simulator's build overlay.
var ZsimNow func() Time

// ZsimInit: packages are being initialised.
var ZsimInit = true
`,
}

func patchStd(goroot, out string, overlay map[string]string) error {
	src := filepath.Join(goroot, "src")
	for _, p := range stdPatches {
		raw, err := os.ReadFile(filepath.Join(src, p.file))
		if err != nil {
			return err
		}
		text := string(raw)
		for _, r := range p.reps {
			if n := strings.Count(text, r[0]); n < 1 || (n > 1 && r[0] != "import (\n") {
				return fmt.Errorf("std patch: %q occurs %d times in %s", r[0], n, p.file)
			}
			if r[0] == "import (\n" && strings.Contains(text, "\t\"runtime\"\n") {
				continue
			}
			text = strings.Replace(text, r[0], r[1], 1)
		}
		if err := put(out, "std/"+p.file, filepath.Join(src, p.file), text, overlay); err != nil {
			return err
		}
	}
	for f, text := range stdAdds {
		if err := put(out, "std/"+f, filepath.Join(src, f), text, overlay); err != nil {
			return err
		}
	}
	return nil
}

func put(out, rel, target, text string, overlay map[string]string) error {
	path := filepath.Join(out, rel)
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	overlay[target] = path
	if old, err := os.ReadFile(path); err == nil && string(old) == text {
		return nil
	}
	return os.WriteFile(path, []byte(text), 0o644)
}
