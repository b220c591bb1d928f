package zcore

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/madkins23/go-slog/internal/zsim"
)

// summary is what a worker reports at its end.
type summary struct {
	Runs       int            `json:"runs"`
	Points     int            `json:"points"`
	Switches   int            `json:"switches"`
	SimNanos   int64          `json:"simnanos"`
	Tasks      int            `json:"tasks"`
	PoolReuse  int            `json:"poolreuse"`
	PoolOther  int            `json:"poolother"`
	Faults     map[string]int `json:"faults"`
	Counts     map[string]int `json:"counts"`
	Modes      map[string]int `json:"modes"`
	Known      map[string]int `json:"known"`
	SitesHit   int            `json:"siteshit"`
	SitesPre   int            `json:"sitespre"`
	Repeats    int            `json:"repeats"`
	Diverged   int            `json:"diverged"`
	Samples    []any          `json:"samples"`
	Truncated  bool           `json:"truncated"`
	Nontrivial int            `json:"nontrivial"`
}

type report struct {
	Kind   string   `json:"kind"` // "violation", "summary"
	Replay *Replay  `json:"replay,omitempty"`
	Sum    *summary `json:"sum,omitempty"`
}

var (
	fMode   = flag.String("zmode", "check", "check, worker, replay, digest")
	fProp   = flag.String("zprop", "", "property")
	fFrom   = flag.Int("zfrom", 0, "first run")
	fTo     = flag.Int("zto", 0, "one past the last run")
	fStep   = flag.Int("zstep", 1, "step between runs")
	fSeed   = flag.Uint64("zseed", 1, "VERIF_SEED")
	fTier   = flag.String("ztier", "quick", "quick or thorough")
	fFile   = flag.String("zfile", "", "replay file")
	fHash   = flag.String("zhashes", "", "file for interleaving hashes")
	fVerif  = flag.String("zverif", "/verif", "framework directory")
	fWall   = flag.Int("zwall", 600, "wall clock limit in seconds")
	fRuns   = flag.Int("zruns", 0, "number of runs instead of the tier's")
	fMin    = flag.Int("zmin", 40, "seconds to spend on a smaller example")
	fVerbos = flag.Bool("zv", false, "verbose")
)

var heartbeat atomic.Int64

// Main is the main function of a harness binary.
func Main(props []*Prop) {
	time.ZsimInit = false // so far the time stood still
	// The code under test defines flags of its own: they keep their defaults here.
	args := os.Args[1:]
	if err := flag.CommandLine.Parse(args); err != nil {
		os.Exit(2)
	}
	if f := os.Getenv("ZSIM_PROFILE"); f != "" {
		if out, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(out)
			defer pprof.StopCPUProfile()
		}
	}
	zsim.SaveGlobals()
	var p *Prop
	for _, q := range props {
		if q.ID == *fProp {
			p = q
		}
	}
	switch *fMode {
	case "worker":
		mustProp(p)
		worker(p)
	case "check":
		mustProp(p)
		os.Exit(check(p))
	case "replay":
		os.Exit(replay(props))
	case "ref":
		mustProp(p)
		raw, err := os.ReadFile(*fFile)
		plan := p.New()
		if err == nil {
			err = json.Unmarshal(raw, plan)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p.Ref(plan, os.Stdout)
	case "digest":
		mustProp(p)
		digest(p)
	default:
		os.Exit(2)
	}
}

func mustProp(p *Prop) {
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
}

func watchdog(limit time.Duration, what func() string) {
	heartbeat.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, heartbeat.Load())) > limit {
				buf := make([]byte, 1<<18)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "watchdog: %s made no progress for %v\n%s\n", what(), limit, buf[:n])
				os.Exit(3)
			}
		}
	}()
}

func modeName(m zsim.Mode) string {
	return [...]string{"replay", "sequential", "uniform", "pct", "sites", "sync"}[m]
}

// worker searches a range of runs and reports JSON lines on standard output.
func worker(p *Prop) {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	known := loadKnown(p.ID)
	cur := 0
	debug.SetMaxStack(128 << 20)
	progress, _ := os.OpenFile(*fHash+".progress", os.O_CREATE|os.O_WRONLY, 0o644)
	watchdog(120*time.Second, func() string { return fmt.Sprintf("%s run %d", p.ID, cur) })
	warmUp(p)
	deadline := time.Now().Add(time.Duration(*fWall) * time.Second)
	sum := &summary{Counts: map[string]int{}, Modes: map[string]int{}, Known: map[string]int{}}
	hashes := make(map[uint64]bool)
	stopAt := filepath.Join(filepath.Dir(*fHash), "stop")
	for i := *fFrom; i < *fTo; i += *fStep {
		cur = i
		_, _ = progress.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		heartbeat.Store(time.Now().UnixNano())
		if time.Now().After(deadline) {
			sum.Truncated = true
			break
		}
		if sum.Runs%64 == 63 {
			if _, err := os.Stat(stopAt); err == nil {
				break
			}
		}
		seed := seedOf(*fSeed, p.ID, i)
		plan := p.Gen(NewRand(seed))
		raw, err := json.Marshal(plan)
		if err != nil {
			fmt.Fprintln(os.Stderr, "plan:", err)
			os.Exit(2)
		}
		// Execute what a replay file would hold.
		plan = p.New()
		if err := json.Unmarshal(raw, plan); err != nil {
			fmt.Fprintln(os.Stderr, "plan:", err)
			os.Exit(2)
		}
		c := schedOf(p, seed)
		x := execute(p, plan, c)
		sum.Runs++
		sum.Modes[modeName(c.Mode)]++
		h := x.Digest
		sw := 0
		for _, r := range x.Results {
			sum.Points += r.Points
			sum.Switches += r.Switches
			sum.SimNanos += int64(r.SimTime)
			sum.Tasks += r.Tasks
			sum.PoolReuse += r.PoolReused
			sum.PoolOther += r.PoolOther
			h = h*31 ^ r.Hash
			sw += r.Switches
		}
		for k, n := range x.Counts {
			sum.Counts[k] += n
		}
		if sw > 1 || p.NoSched {
			sum.Nontrivial++
			hashes[h] = true
		}
		if len(sum.Samples) < 2 {
			text := string(raw)
			if len(text) > 600 {
				text = text[:600] + "..."
			}
			sum.Samples = append(sum.Samples, map[string]any{"run": i, "runseed": seed, "mode": modeName(c.Mode), "switches": sw, "plan": text})
		}
		fresh, hit := split(x.Viols, known)
		for _, k := range hit {
			sum.Known[strconv.Itoa(k)]++
		}
		if len(fresh) == 0 && i%101 == 7 && !p.Fresh {
			// Determinism: the same seed again must give the same execution.
			plan = p.New()
			_ = json.Unmarshal(raw, plan)
			y := execute(p, plan, c)
			sum.Repeats++
			same := x.Digest == y.Digest && len(x.Results) == len(y.Results)
			for k := range x.Results {
				same = same && k < len(y.Results) && x.Results[k].Hash == y.Results[k].Hash && x.Results[k].Points == y.Results[k].Points
			}
			if !same {
				sum.Diverged++
				fmt.Fprintf(os.Stderr, "run %d diverged: digest %v", i, x.Digest == y.Digest)
				for k := range min(len(x.Results), len(y.Results)) {
					fmt.Fprintf(os.Stderr, ", schedule %v, points %d %d", x.Results[k].Hash == y.Results[k].Hash, x.Results[k].Points, y.Results[k].Points)
				}
				fmt.Fprintln(os.Stderr)
			}
		}
		if len(fresh) > 0 {
			v := fresh[0]
			rp := &Replay{Property: p.ID, Seed: *fSeed, Run: i, RunSeed: seed, Class: v.Class, Detail: v.Detail, Sched: c, Plan: raw}
			// First as it is, in case minimisation does not end.
			_ = enc.Encode(report{Kind: "violation", Replay: rp})
			_ = out.Flush()
			_ = os.WriteFile(stopAt, nil, 0o644)
			if !p.Fresh {
				go func() {
					for {
						time.Sleep(time.Second)
						heartbeat.Store(time.Now().UnixNano())
					}
				}()
				if b, d, w := minimise(p, raw, c, v.Class, known, time.Duration(*fMin)*time.Second); w != nil {
					rp2 := *rp
					rp2.Plan, rp2.Sched, rp2.Detail, rp2.Minimised = b, d, w.Detail, true
					_ = enc.Encode(report{Kind: "violation", Replay: &rp2})
					_ = out.Flush()
				}
			}
			break
		}
	}
	sum.Faults = zsim.FaultMap()
	sum.SitesHit, sum.SitesPre = zsim.SiteStats()
	if *fHash != "" {
		f, err := os.Create(*fHash)
		if err == nil {
			w := bufio.NewWriter(f)
			for h := range hashes {
				_ = binary.Write(w, binary.LittleEndian, h)
			}
			_ = w.Flush()
			_ = f.Close()
		}
	}
	_ = enc.Encode(report{Kind: "summary", Sum: sum})
	_ = out.Flush()
}

// warmUp executes a few plans, the same in every process, so that caches in the standard library and
// the dependencies (of types, of patterns) are filled: filling them takes synchronisation steps.
func warmUp(p *Prop) {
	if p.Fresh {
		return
	}
	n := p.Warm
	if n == 0 {
		n = 40
	}
	for i := 0; i < n; i++ {
		seed := seedOf(0xA11, p.ID, i)
		c := schedOf(p, seed)
		c.Mode = zsim.ModeSequential
		execute(p, p.Gen(NewRand(seed)), c)
	}
	for _, plan := range p.WarmPlans {
		c := schedOf(p, 1)
		c.Mode = zsim.ModeSequential
		execute(p, plan, c)
	}
	zsim.ResetStats()
}

// digest prints one line per run: to compare executions between processes.
func digest(p *Prop) {
	warmUp(p)
	for i := *fFrom; i < *fTo; i += *fStep {
		seed := seedOf(*fSeed, p.ID, i)
		x := execute(p, p.Gen(NewRand(seed)), schedOf(p, seed))
		fmt.Printf("%d %x", i, x.Digest)
		for _, r := range x.Results {
			fmt.Printf(" %d/%d/%x", r.Points, r.Switches, r.Hash)
		}
		for _, v := range x.Viols {
			fmt.Printf(" %s", v.Class)
		}
		fmt.Println()
	}
}

// child starts this binary again with its own race log.
func child(tmp string, args ...string) *exec.Cmd {
	cmd := exec.Command(os.Args[0], args...)
	log := filepath.Join(tmp, "race")
	cmd.Env = append(os.Environ(),
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+log,
		"ZSIM_RACELOG="+log, "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1",
		"ZSIM_KNOWN="+filepath.Join(*fVerif, "known_findings.json"))
	return cmd
}

// check runs the search in several processes, writes the evidence, and reports.
func check(p *Prop) int {
	start := time.Now()
	n := p.Quick
	if *fTier == "thorough" {
		n = p.Thorough
	}
	if *fRuns > 0 {
		n = *fRuns
	}
	tmp, err := os.MkdirTemp("", "zsim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer func() { _ = os.RemoveAll(tmp) }()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers > n {
		workers = n
	}
	known := loadKnownParent(p.ID)
	var mu sync.Mutex
	best := make(map[string]*Replay) // class -> replay
	var order []string
	total := &summary{Counts: map[string]int{}, Modes: map[string]int{}, Known: map[string]int{}, Faults: map[string]int{}}
	failed := ""
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := w
			for part := 0; ; part++ {
				args := []string{"-zmode", "worker", "-zprop", p.ID, "-zfrom", strconv.Itoa(from), "-zto", strconv.Itoa(n),
					"-zstep", strconv.Itoa(workers), "-zseed", strconv.FormatUint(*fSeed, 10), "-zwall", strconv.Itoa(*fWall),
					"-zhashes", filepath.Join(tmp, fmt.Sprintf("hashes.%d.%d", w, part)), "-zverif", *fVerif, "-zmin", strconv.Itoa(*fMin)}
				if p.Fresh {
					args[7] = strconv.Itoa(from + 1)
				}
				cmd := child(tmp, args...)
				if p.Env != nil {
					cmd.Env = append(cmd.Env, p.Env(p.Gen(NewRand(seedOf(*fSeed, p.ID, from))))...)
				}
				stdout, err := cmd.StdoutPipe()
				if err != nil {
					failed = err.Error()
					return
				}
				var errText strings.Builder
				cmd.Stderr = &errText
				if err := cmd.Start(); err != nil {
					failed = err.Error()
					return
				}
				dec := json.NewDecoder(stdout)
				gotSum, gotViol := false, false
				for {
					var rep report
					if dec.Decode(&rep) != nil {
						break
					}
					mu.Lock()
					switch rep.Kind {
					case "violation":
						gotViol = true
						if old, ok := best[rep.Replay.Class]; !ok || (rep.Replay.Minimised && (!old.Minimised || len(rep.Replay.Plan) < len(old.Plan))) {
							if !ok {
								order = append(order, rep.Replay.Class)
							}
							best[rep.Replay.Class] = rep.Replay
						}
					case "summary":
						gotSum = true
						merge(total, rep.Sum)
					}
					mu.Unlock()
				}
				err = cmd.Wait()
				if rp := crashed(p, err, errText.String(), filepath.Join(tmp, fmt.Sprintf("hashes.%d.%d.progress", w, part))); rp != nil && !gotSum && !gotViol {
					mu.Lock()
					if _, ok := best[rp.Class]; !ok {
						order = append(order, rp.Class)
						best[rp.Class] = rp
					}
					mu.Unlock()
					_ = os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o644)
					return
				}
				if !gotSum && !gotViol {
					mu.Lock()
					failed = fmt.Sprintf("worker %d: %v\n%s", w, err, tail(errText.String()))
					mu.Unlock()
					return
				}
				if !p.Fresh || gotViol {
					return
				}
				from += workers
				if from >= n || time.Since(start) > time.Duration(*fWall)*time.Second {
					return
				}
				if _, err := os.Stat(filepath.Join(tmp, "stop")); err == nil {
					return
				}
			}
		}()
	}
	wg.Wait()

	distinct := make(map[uint64]bool)
	files, _ := filepath.Glob(filepath.Join(tmp, "hashes.*"))
	for _, f := range files {
		raw, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(raw); i += 8 {
			distinct[binary.LittleEndian.Uint64(raw[i:])] = true
		}
	}

	// A violation counts when its replay file reproduces it in a fresh process.
	code := 0
	violations := 0
	dir := filepath.Join(*fVerif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	for _, class := range order {
		rp := best[class]
		path, ok := confirm(p, rp, dir, tmp)
		if !ok && rp.Minimised {
			// Fall back to the whole execution as found.
			seed := rp.RunSeed
			raw, _ := json.Marshal(p.Gen(NewRand(seed)))
			whole := *rp
			whole.Plan, whole.Sched, whole.Minimised = raw, schedOf(p, seed), false
			path, ok = confirm(p, &whole, dir, tmp)
		}
		if !ok {
			fmt.Printf("NOT-REPRODUCED property=%s class=%s run=%d %s\n", p.ID, class, rp.Run, firstLine(rp.Detail))
			continue
		}
		violations++
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  class=%s run=%d minimised=%v\n  %s\n", class, rp.Run, rp.Minimised, strings.ReplaceAll(tail(rp.Detail), "\n", "\n  "))
		code = 1
	}
	if code == 0 && (failed != "" || len(order) > 0) {
		fmt.Fprintln(os.Stderr, "error of the check:", failed)
		code = 2
	}
	for i, k := range known {
		if total.Known[strconv.Itoa(i)] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	evidence(p, total, len(distinct), violations, start)
	fmt.Printf("%s %s: %d runs, %d distinct interleavings, %d points, %.1fs, faults %v, counts %v, repeats %d diverged %d\n", p.ID, *fTier, total.Runs,
		len(distinct), total.Points, time.Since(start).Seconds(), total.Faults, total.Counts, total.Repeats, total.Diverged)
	return code
}

func loadKnownParent(id string) []Known {
	_ = os.Setenv("ZSIM_KNOWN", filepath.Join(*fVerif, "known_findings.json"))
	return loadKnown(id)
}

// classCrash is a death of the process: the Go runtime gave up, or nothing moved any more.
const classCrash = "crash"

// died reports whether a process ended that way.
func died(err error, text string) bool {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	switch ee.ExitCode() {
	case 2:
		return strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "goroutine stack exceeds")
	case 3:
		return strings.Contains(text, "watchdog:")
	}
	return false
}

// crashed makes a replay of the execution in which a worker died.
func crashed(p *Prop, err error, text, progress string) *Replay {
	if !died(err, text) {
		return nil
	}
	at, err := os.ReadFile(progress)
	if err != nil {
		return nil
	}
	i, err := strconv.Atoi(strings.TrimSpace(string(at)))
	if err != nil {
		return nil
	}
	seed := seedOf(*fSeed, p.ID, i)
	raw, err := json.Marshal(p.Gen(NewRand(seed)))
	if err != nil {
		return nil
	}
	return &Replay{Property: p.ID, Seed: *fSeed, Run: i, RunSeed: seed, Class: classCrash, Detail: tail(text), Sched: schedOf(p, seed), Plan: raw}
}

func confirm(p *Prop, rp *Replay, dir, tmp string) (string, bool) {
	raw, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", false
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, rp.Class, rp.Run))
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		return "", false
	}
	for try := 0; try < 2; try++ {
		cmd := child(tmp, "-zmode", "replay", "-zfile", path, "-zverif", *fVerif)
		if p.Env != nil {
			plan := p.New()
			if json.Unmarshal(rp.Plan, plan) == nil {
				cmd.Env = append(cmd.Env, p.Env(plan)...)
			}
		}
		out, err := cmd.CombinedOutput()
		if rp.Class == classCrash {
			if died(err, string(out)) {
				continue
			}
			return path, false
		}
		ee, ok := err.(*exec.ExitError)
		if !ok || ee.ExitCode() != 1 || !strings.Contains(string(out), "class="+rp.Class) {
			if *fVerbos {
				fmt.Fprintf(os.Stderr, "replay: %v\n%s\n", err, tail(string(out)))
			}
			return path, false
		}
	}
	return path, true
}

// replay executes a replay file; it exits 1 if the violation is there.
func replay(props []*Prop) int {
	if os.Getenv("ZSIM_RACELOG") == "" {
		// Started by hand: again, with the race detector set up.
		tmp, err := os.MkdirTemp("", "zsim-")
		if err != nil {
			return 2
		}
		defer func() { _ = os.RemoveAll(tmp) }()
		cmd := child(tmp, os.Args[1:]...)
		var rp Replay
		if raw, err := os.ReadFile(*fFile); err == nil && json.Unmarshal(raw, &rp) == nil {
			for _, p := range props {
				if p.ID == rp.Property && p.Env != nil {
					plan := p.New()
					if json.Unmarshal(rp.Plan, plan) == nil {
						cmd.Env = append(cmd.Env, p.Env(plan)...)
					}
				}
			}
		}
		var errText strings.Builder
		cmd.Stdout, cmd.Stderr = os.Stdout, io.MultiWriter(os.Stderr, &errText)
		if err := cmd.Run(); err != nil {
			if rp.Class == classCrash && died(err, errText.String()) {
				fmt.Printf("VIOLATION property=%s replay=%s\n  class=%s\n", rp.Property, *fFile, rp.Class)
				return 1
			}
			if ee, ok := err.(*exec.ExitError); ok {
				return ee.ExitCode()
			}
			return 2
		}
		return 0
	}
	raw, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(raw, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, p := range props {
		if p.ID != rp.Property {
			continue
		}
		watchdog(150*time.Second, func() string { return "replay" })
		debug.SetMaxStack(128 << 20)
		warmUp(p)
		plan := p.New()
		if err := json.Unmarshal(rp.Plan, plan); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		x := execute(p, plan, rp.Sched)
		fresh, _ := split(x.Viols, loadKnown(p.ID))
		for _, v := range fresh {
			if v.Class == rp.Class {
				fmt.Printf("VIOLATION property=%s replay=%s\n  class=%s\n  %s\n", p.ID, *fFile, v.Class, v.Detail)
				for _, r := range x.Results {
					fmt.Printf("  points=%d switches=%d interleaving=%x\n", r.Points, r.Switches, r.Hash)
				}
				return 1
			}
		}
		for _, v := range fresh {
			fmt.Printf("other: class=%s-other %s\n", v.Class, v.Detail)
		}
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Fprintln(os.Stderr, "unknown property", rp.Property)
	return 2
}

func merge(t, s *summary) {
	t.Runs += s.Runs
	t.Points += s.Points
	t.Switches += s.Switches
	t.SimNanos += s.SimNanos
	t.Tasks += s.Tasks
	t.PoolReuse += s.PoolReuse
	t.PoolOther += s.PoolOther
	t.Repeats += s.Repeats
	t.Diverged += s.Diverged
	t.Nontrivial += s.Nontrivial
	t.Truncated = t.Truncated || s.Truncated
	for k, n := range s.Faults {
		t.Faults[k] += n
	}
	for k, n := range s.Counts {
		t.Counts[k] += n
	}
	for k, n := range s.Modes {
		t.Modes[k] += n
	}
	for k, n := range s.Known {
		t.Known[k] += n
	}
	if s.SitesHit > t.SitesHit {
		t.SitesHit = s.SitesHit
	}
	if s.SitesPre > t.SitesPre {
		t.SitesPre = s.SitesPre
	}
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, s.Samples...)
	}
}

func evidence(p *Prop, t *summary, distinct, violations int, start time.Time) {
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations":                         t.Runs,
		"distinct_nontrivial":                 distinct,
		"rule":                                p.Rule,
		"samples":                             t.Samples,
		"nontrivial_runs":                     t.Nontrivial,
		"points":                              t.Points,
		"switches":                            t.Switches,
		"simulated_threads":                   t.Tasks,
		"simulated_seconds":                   float64(t.SimNanos) / 1e9,
		"runs_per_hour":                       int(float64(t.Runs) / wall * 3600),
		"faults_fired":                        t.Faults,
		"probes":                              t.Counts,
		"schedule_modes":                      t.Modes,
		"sites_reached":                       t.SitesHit,
		"sites_preempted":                     t.SitesPre,
		"pool_objects_reused":                 t.PoolReuse,
		"pool_objects_cross_thread":           t.PoolOther,
		"runs_repeated_for_determinism_check": t.Repeats,
		"runs_that_diverged":                  t.Diverged,
		"known_findings_hit":                  t.Known,
		"real_components":                     p.Real,
		"stub_components":                     p.Stub,
		"cut_short_by_wall_limit":             t.Truncated,
	}
	ev := map[string]any{"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	raw, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
		_ = os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), raw, 0o644)
	}
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var _ = sort.Strings
