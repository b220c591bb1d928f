// Package zcore drives simulated executions: seeds, schedules, minimisation, replay, evidence.
package zcore

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/madkins23/go-slog/internal/zsim"
)

// Rand is a small seeded generator.
type Rand struct{ s uint64 }

// NewRand returns a generator.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

// Uint64 returns the next number.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return float64(r.Uint64()>>11)/(1<<53) < p }

// Pick returns one of the arguments.
func Pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }

// Prop is one property with its workload and oracle.
type Prop struct {
	ID       string
	Gen      func(r *Rand) any // a plan
	New      func() any        // an empty plan, to decode into
	Run      func(plan any, x *Exec)
	Quick    int // number of executions
	Thorough int
	Length   int  // typical number of points
	MaxPts   int  // bound on points: progress
	NoSched  bool // single-task: schedule modes are irrelevant
	Fresh    bool // every execution needs a process of its own
	Warm     int  // executions before those that count; 0: 40
	// WarmPlans are executed then as well.
	WarmPlans []any
	Env       func(plan any) []string     // environment of that process
	Ref       func(plan any, w io.Writer) // what a process of its own computes for Reference
	Rule      string                      // how cases are made and which count as non-trivial
	Real      []string
	Stub      []string
	Assume    []string
}

// Violation is one failed check.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Exec is one execution.
type Exec struct {
	Sched   zsim.Config
	Results []zsim.Result
	Viols   []Violation
	Counts  map[string]int
	Digest  uint64 // of the recorded history
	EnvNo   int
	prop    *Prop
	plan    any
}

// Sim makes the simulation of this execution.
func (x *Exec) Sim() *zsim.Sim {
	c := x.Sched
	c.EnvSeed += uint64(x.EnvNo) * 7919
	x.EnvNo++
	return zsim.New(c)
}

// RunSim runs and notes the result; it returns false if the execution did not end normally.
func (x *Exec) RunSim(s *zsim.Sim) bool {
	r := s.Run()
	x.Results = append(x.Results, r)
	if r.Kind != "" {
		x.Fail(r.Kind, "%s", r.Detail)
		return false
	}
	return true
}

// Fail notes a violation.
func (x *Exec) Fail(class, format string, args ...any) {
	if len(x.Viols) < 8 {
		x.Viols = append(x.Viols, Violation{class, fmt.Sprintf(format, args...)})
	}
}

// Count notes that something interesting happened.
func (x *Exec) Count(what string, n int) {
	if n != 0 {
		x.Counts[what] += n
	}
}

// Note adds to the digest of the history.
func (x *Exec) Note(text string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(text))
	x.Digest = x.Digest*0x100000001b3 ^ h.Sum64()
}

// Reference runs the property's Ref on the plan of this execution in another process.
func (x *Exec) Reference() ([]byte, error) {
	tmp, err := os.MkdirTemp("", "zsim-ref-")
	if err != nil {
		return nil, err
	}
	defer func() { _ = os.RemoveAll(tmp) }()
	raw, err := json.Marshal(x.plan)
	if err != nil {
		return nil, err
	}
	path := filepath.Join(tmp, "plan.json")
	if err := os.WriteFile(path, raw, 0o644); err != nil {
		return nil, err
	}
	cmd := child(tmp, "-zmode", "ref", "-zprop", x.prop.ID, "-zfile", path, "-zverif", *fVerif)
	if x.prop.Env != nil {
		cmd.Env = append(cmd.Env, x.prop.Env(x.plan)...)
	}
	var errText strings.Builder
	cmd.Stderr = &errText
	out, err := cmd.Output()
	if err != nil {
		return out, fmt.Errorf("%w: %s", err, tail(errText.String()))
	}
	return out, nil
}

// ---------------------------------------------------------------------------- one execution

func seedOf(base uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(prop))
	r := NewRand(base*0x9E3779B97F4A7C15 ^ h.Sum64() ^ uint64(i)*0xD1342543DE82EF95)
	r.Uint64()
	return r.Uint64()
}

// schedOf derives a schedule from a seed.
func schedOf(p *Prop, seed uint64) zsim.Config {
	r := NewRand(seed ^ 0xABCDEF)
	c := zsim.Config{Seed: r.Uint64(), EnvSeed: r.Uint64(), MaxPoints: p.MaxPts}
	if p.NoSched {
		c.Mode = zsim.ModeSequential
		return c
	}
	switch k := r.N(20); {
	case k < 1:
		c.Mode = zsim.ModeSequential
	case k < 8:
		c.Mode = zsim.ModeUniform
		c.P = Pick(r, 0.01, 0.05, 0.15, 0.3, 0.6)
	case k < 13:
		c.Mode = zsim.ModePCT
		c.Depth = r.Range(1, 5)
		c.Length = p.Length
		if r.P(0.3) {
			c.Length = p.Length / 3
		}
	case k < 17:
		c.Mode = zsim.ModeSites
		c.P = Pick(r, 0.2, 0.5, 0.9)
	default:
		c.Mode = zsim.ModeSync
		c.P = Pick(r, 0.3, 0.7)
	}
	return c
}

// execute runs a plan under a schedule.
func execute(p *Prop, plan any, c zsim.Config) *Exec {
	x := &Exec{Sched: c, Counts: make(map[string]int), prop: p, plan: plan}
	if x.Sched.MaxPoints == 0 {
		x.Sched.MaxPoints = p.MaxPts
	}
	zsim.ResetPools()
	zsim.RestoreGlobals()
	races := zsim.RaceErrors()
	func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 16384)
				n := runtime.Stack(buf, false)
				x.Fail("panic", "%v\n%s", r, buf[:n])
			}
		}()
		p.Run(plan, x)
	}()
	if n := zsim.RaceErrors() - races; n > 0 {
		for _, d := range readRaces() {
			x.Fail("data-race", "%s", d)
		}
	}
	return x
}

// ---------------------------------------------------------------------------- race reports

var raceOff int64

var frameRE = regexp.MustCompile(`(?m)^  (\S+)\(\)\n\s+(/\S+:\d+)`)

func isHarness(file string) bool {
	for _, d := range []string{"/internal/zsim/", "/internal/zcore/", "/internal/zhandlers/", "/internal/zweb/", "/internal/zsuites/", "/cmd/zsim_"} {
		if strings.Contains(file, d) {
			return true
		}
	}
	return false
}

// readRaces returns the new reports that concern go-slog itself, each as one line.
func readRaces() []string {
	path := os.Getenv("ZSIM_RACELOG")
	if path == "" {
		return []string{"(no report file)"}
	}
	path = fmt.Sprintf("%s.%d", path, os.Getpid())
	f, err := os.Open(path)
	if err != nil {
		return []string{"(report not readable)"}
	}
	defer func() { _ = f.Close() }()
	if _, err := f.Seek(raceOff, 0); err != nil {
		return nil
	}
	var sb strings.Builder
	buf := make([]byte, 1<<16)
	for {
		n, err := f.Read(buf)
		sb.Write(buf[:n])
		if err != nil {
			break
		}
	}
	raceOff += int64(sb.Len())
	if raceOff > 64<<20 {
		_ = os.Truncate(path, 0)
	}
	seen := make(map[string]bool)
	var out []string
	for _, block := range strings.Split(sb.String(), "==================") {
		if !strings.Contains(block, "DATA RACE") {
			continue
		}
		access := block
		if i := strings.Index(block, "\nGoroutine "); i > 0 {
			access = block[:i]
		}
		parts := regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|atomic [a-z]+|Atomic [a-z]+) at `).Split(access, -1)
		var sites []string
		ours := false
		harness := false
		for _, part := range parts[1:] {
			site := ""
			// An access by the simulator or a harness itself, other than a destination reading
			// the bytes it was given, says nothing about go-slog.
			for _, m := range frameRE.FindAllStringSubmatch(part, -1) {
				if strings.HasPrefix(m[1], "runtime.") {
					continue
				}
				harness = harness || isHarness(m[2]) && !strings.Contains(m[1], "zsim.(*Dest).Write")
				break
			}
			for _, m := range frameRE.FindAllStringSubmatch(part, -1) {
				if strings.HasPrefix(m[1], "github.com/madkins23/go-slog/") && !isHarness(m[2]) {
					ours = true
					_, at, _ := strings.Cut(m[2], "/repo/")
					site = at + " " + m[1][strings.LastIndex(m[1], "/")+1:]
					break
				}
				if site == "" {
					site = m[1]
				}
			}
			sites = append(sites, site)
		}
		if !ours || harness {
			continue
		}
		sort.Strings(sites)
		line := strings.Join(sites, " <-> ")
		if !seen[line] {
			seen[line] = true
			out = append(out, line)
		}
	}
	return out
}

// ---------------------------------------------------------------------------- known findings

// Known is one recorded finding.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regular expression on the detail
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit of the repair: suppresses nothing
	re       *regexp.Regexp
}

func loadKnown(prop string) []Known {
	raw, err := os.ReadFile(os.Getenv("ZSIM_KNOWN"))
	if err != nil {
		return nil
	}
	var all struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(raw, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	var out []Known
	for _, k := range all.Findings {
		if k.Property == prop && k.Fixed == "" {
			k.re = regexp.MustCompile(k.Match)
			out = append(out, k)
		}
	}
	return out
}

func split(viols []Violation, known []Known) (fresh []Violation, hit []int) {
	for _, v := range viols {
		k := -1
		for i := range known {
			if known[i].Class == v.Class && known[i].re.MatchString(v.Detail) {
				k = i
			}
		}
		if k < 0 {
			fresh = append(fresh, v)
		} else {
			hit = append(hit, k)
		}
	}
	return
}

// ---------------------------------------------------------------------------- replay files

// Replay is the content of a replay file.
type Replay struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"seed"` // VERIF_SEED of the search
	Run       int             `json:"run"`  // index of the execution in the search
	RunSeed   uint64          `json:"runseed"`
	Class     string          `json:"class"`
	Detail    string          `json:"detail"`
	Minimised bool            `json:"minimised"`
	Sched     zsim.Config     `json:"sched"`
	Plan      json.RawMessage `json:"plan"`
	Site      string          `json:"switch_sites,omitempty"`
}

func now() time.Time { return time.Now() }
