package zsuites

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	btests "github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// bnDevs are the deviations that the benchmark suite can meet.
var bnDevs = []string{"lineLost", "lineTwice", "source", "caller", "message", "levelLower", "stringAny", "noTime", "noLevel", "msgCut", "dups",
	"numString", "boolString", "unsigned", "floatShort", "enabledAll", "withGroupLost", "withLost", "groupLost", "broken", "durString", "timeSeconds", "levelWrong"}

type bnSuite struct {
	Maker  int            `json:"maker"` // a real creator, or -1: the simulated handler
	Dev    map[string]int `json:"dev"`
	Warn   []string       `json:"warn"` // declared
	Logger bool           `json:"logger"`
	Name   int            `json:"name"`
	Sleep  int            `json:"sleep"`
	Parts  int            `json:"parts"`
	NoLock bool           `json:"nolock"`
}

type bnPlan struct {
	Suites []bnSuite `json:"suites"` // run one after the other, as go test does
	N      []int     `json:"n"`
	Procs  int       `json:"procs"`
	Big    []int     `json:"big"` // sizes of the groups in the big group, in turn, less one
}

func genBnPlan(r *zcore.Rand) any {
	p := &bnPlan{Procs: r.Range(1, 4), N: []int{1}}
	for i := r.Range(1, 2); i > 0; i-- {
		p.N = append(p.N, r.Range(2, zcore.Pick(r, 3, 4, 9)))
	}
	for i := r.Range(0, 12); i > 0; i-- {
		p.Big = append(p.Big, zcore.Pick(r, 0, 0, 0, 1, 1, 2, 4))
	}
	for i := r.Range(1, 2); i > 0; i-- {
		s := bnSuite{Maker: -1, Dev: map[string]int{}, Name: r.N(3), Logger: r.P(0.15), Parts: r.N(4), NoLock: r.P(0.5)}
		if r.P(0.35) {
			s.Maker = r.N(4)
		}
		if r.P(0.3) {
			s.Sleep = r.Range(1, 2000)
		}
		if s.Maker < 0 {
			for i := zcore.Pick(r, 0, 1, 1, 1, 2, 2, 3); i > 0; i-- {
				s.Dev[bnDevs[r.N(len(bnDevs))]] = r.N(3)
				if r.P(0.1) {
					s.Dev["source"] = r.N(6)
				}
			}
		}
		for _, w := range []string{warning.StringAny.Name, warning.Mismatch.Name, warning.SkipDedup.Name} {
			if r.P(0.25) {
				s.Warn = append(s.Warn, w)
			}
		}
		p.Suites = append(p.Suites, s)
	}
	return p
}

// The functions that run a suite are named like those of go test.
func BenchmarkSim(b *testing.B, s *btests.SlogBenchmarkSuite)          { btests.Run(b, s) }
func BenchmarkOther(b *testing.B, s *btests.SlogBenchmarkSuite)        { btests.Run(b, s) }
func Benchmark_madkins_sim(b *testing.B, s *btests.SlogBenchmarkSuite) { btests.Run(b, s) }

var bnFunctions = []struct {
	tag string
	run func(*testing.B, *btests.SlogBenchmarkSuite)
}{{"Sim", BenchmarkSim}, {"Other", BenchmarkOther}, {"_madkins_sim", Benchmark_madkins_sim}}

// bnLog keeps what the suite logs about itself.
type bnLog struct {
	mu   sync.Mutex
	text []string
}

func (l *bnLog) Enabled(context.Context, slog.Level) bool { return true }
func (l *bnLog) WithAttrs([]slog.Attr) slog.Handler       { return l }
func (l *bnLog) WithGroup(string) slog.Handler            { return l }
func (l *bnLog) Handle(_ context.Context, r slog.Record) error {
	text := r.Message
	r.Attrs(func(a slog.Attr) bool {
		text += " " + a.String()
		return true
	})
	l.mu.Lock()
	defer l.mu.Unlock()
	l.text = append(l.text, text)
	return nil
}

// bnIssue is something a benchmark's check has to find.
type bnIssue struct {
	warn, fn, text string // the warning; "": none
	err            string // part of the logged error; "": none
}

// fieldState says what the deviations make of a field: 0 right, 1 a string, 2 wrong.
func fieldState(d Dev, name string) int {
	if d.has("broken") {
		return 2
	}
	switch name = strings.TrimPrefix(name, "with"); name {
	case "level":
		if d.has("noLevel") {
			return 2
		}
	case "msg":
		if d.has("msgCut") {
			return 2
		}
	case "Bool":
		if d.has("boolString") {
			return 1
		}
	case "Int", "Uint64":
		if d.has("numString") {
			return 1
		}
	case "Int64":
		if d.has("numString") {
			return 1
		}
		if d.has("unsigned") {
			return 2
		}
	case "Float64":
		if d.has("floatShort") {
			return 2
		}
	case "group":
		if d.has("groupLost") {
			return 2
		}
	case "Any":
		if d.has("stringAny") {
			return 1
		}
	}
	return 0
}

var (
	bnBasic = []string{"level", "msg"}
	bnAll   = []string{"Any", "Bool", "Float64", "Int", "Int64", "String", "Uint64", "group"}
	bnWith  = []string{"Any", "group", "withBool", "withFloat64", "withInt", "withInt64", "withString", "withUint64"}
)

// issues is what the suite has to find in a line of the benchmark.
func (s *bnSuite) issues(bench, caller string) (out []bnIssue, finders int) {
	d := Dev(s.Dev)
	mismatch, stringAny := slices.Contains(s.Warn, warning.Mismatch.Name), slices.Contains(s.Warn, warning.StringAny.Name)
	find := func(name string, fields []string, lost func(string) bool) {
		if slices.Contains(s.Warn, warning.SkipDedup.Name) && (strings.HasSuffix(name, "s:All") || strings.HasSuffix(name, "s:With")) && strings.HasPrefix(name, "WithAttrs") {
			return
		}
		finders++
		var bad, str []string
		for _, f := range fields {
			switch st := fieldState(d, f); {
			case lost != nil && lost(f), st == 2:
				bad = append(bad, f)
			case st == 1:
				str = append(str, f)
			}
		}
		if len(str) > 0 {
			if stringAny {
				out = append(out, bnIssue{warning.StringAny.Name, name + ": " + strings.Join(str, ","), "", ""})
			} else {
				for _, f := range str {
					bad = append(bad, `"`+f+`"`)
				}
			}
		}
		if len(bad) > 0 {
			text := name + ": " + strings.Join(bad, ",")
			if mismatch {
				out = append(out, bnIssue{warning.Mismatch.Name, text, "", ""})
			} else {
				out = append(out, bnIssue{"", "", "", "mismatch " + text})
			}
		}
	}
	dups := func(name string) {
		if d.has("dups") && !d.has("broken") && strings.HasPrefix(name, "WithAttrs") && name != "WithAttrsSimple" && !d.has("withLost") {
			out = append(out, bnIssue{warning.Duplicates.Name, name, "", warning.Duplicates.Summary})
		}
	}
	withLost := func(string) bool { return false }
	if d.has("withLost") && d["withLost"] == 0 {
		withLost = func(f string) bool { return true }
	}
	both := func(f string) bool { // what the record has also
		return withLost(f) && f != "Any" && f != "group"
	}
	name := strings.TrimPrefix(bench, "Benchmark")
	switch name {
	case "Disabled":
		if d.has("enabledAll") {
			out = append(out, bnIssue{warning.NotDisabled.Name, caller, "Disabled", warning.NotDisabled.Summary})
		}
	case "Simple":
		if d.has("noLevel") || d.has("msgCut") || d.has("broken") {
			out = append(out, bnIssue{warning.Mismatch.Name, "Simple", "", "Simple"})
		}
	case "SimpleSource":
		find(name, bnBasic, nil)
		v, ok := d["source"]
		text, w := "", warning.SourceKey
		switch {
		case d.has("broken"), ok && v == 0:
			text = "no 'source' key"
		case ok && v <= 2:
			text = "source not map"
		case d.has("caller"):
			text, w = "*", warning.SourceCaller
		case ok:
			text = "missing fields: " + []string{"function", "file", "line"}[v%3]
		}
		if text != "" {
			out = append(out, bnIssue{w.Name, name, text, w.Summary})
		}
	case "Attributes", "KeyValues":
		find(name, bnBasic, nil)
		find(name, bnAll, nil)
		dups(name)
	case "WithAttrsSimple":
		find(name+":Basic", bnBasic, nil)
		find(name+":With", bnWith, withLost)
	case "WithAttrsAttributes", "WithAttrsKeyValues":
		find(name+":Basic", bnBasic, nil)
		find(name+":All", bnAll, nil)
		find(name+":With", bnWith, both)
		dups(name)
	case "WithGroupAttributes", "WithGroupKeyValues":
		find(name+":Basic", bnBasic, nil)
		if d.has("withGroupLost") || d.has("broken") {
			find(name+":All", []string{"withGroup"}, func(string) bool { return true })
		} else {
			find(name+":All", bnAll, nil)
		}
	case "BigGroup":
		if d.has("groupLost") && !d.has("broken") {
			out = append(out, bnIssue{warning.Mismatch.Name, caller, "BigGroup: *", "BigGroup"})
		}
	case "Logging":
		var missing []string
		for _, f := range []string{"level", "msg", "code", "elapsed", "method", "url"} {
			if d.has("broken") || f == "level" && d.has("noLevel") {
				missing = append(missing, f)
			}
		}
		if missing != nil {
			text := "Logging: " + strings.Join(missing, ",")
			out = append(out, bnIssue{warning.Mismatch.Name, caller, text, text})
		}
	}
	return out, finders
}

func (s *bnSuite) creator() infra.Creator {
	if s.Maker >= 0 {
		c := makers[s.Maker].make()
		if s.Logger {
			return infra.NewCreator(c.Name(), nil, c.NewLogger, "", nil)
		}
		return c
	}
	mk := func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		h := newSimHandler(w, o, s.Dev)
		h.sleep, h.parts, h.nolock = time.Duration(s.Sleep)*time.Microsecond, s.Parts, s.NoLock
		return h
	}
	if s.Logger {
		return infra.NewCreator("sim/handler", nil, func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(mk(w, o)) }, "", nil)
	}
	return infra.NewCreator("sim/handler", mk, nil, "", nil)
}

type bnSeen struct {
	name   string
	n      int
	failed bool
}

func runBnPlan(plan any, x *zcore.Exec) {
	p := plan.(*bnPlan)
	oldDefault, oldOut := slog.Default(), zsim.Stdout
	defer func() {
		slog.SetDefault(oldDefault)
		zsim.Stdout = oldOut
		zsim.IntnIs = nil
		testing.ZsimSeen, testing.ZsimGo = nil, nil
	}()
	testing.ZsimProcs, testing.ZsimN = p.Procs, p.N
	big := 0
	zsim.IntnIs = func(n int) int {
		big++
		if big > len(p.Big) {
			return 0
		}
		return p.Big[big-1] % n
	}
	for i := range p.Suites {
		s := &p.Suites[i]
		f := bnFunctions[s.Name%len(bnFunctions)]
		log := &bnLog{}
		slog.SetDefault(slog.New(log))
		var out bytes.Buffer
		zsim.Stdout = &out
		var seen []bnSeen
		testing.ZsimGo = func(f func()) { zsim.Go(f) }
		testing.ZsimSeen = func(b *testing.B, n int, failed bool) {
			seen = append(seen, bnSeen{b.Name(), n, failed})
		}
		suite := btests.NewSlogBenchmarkSuite(s.creator())
		for _, name := range s.Warn {
			if w := warning.ByName(name); w != nil {
				suite.WarnOnly(w)
			}
		}
		b := testing.ZsimB("Benchmark" + f.tag)
		sim := x.Sim()
		sim.Spawn("main", func() { f.run(b, suite) })
		if !x.RunSim(sim) {
			return
		}
		checkBench(p, s, "Benchmark"+f.tag, suite, b, seen, log.text, out.String(), x)
	}
}

func checkBench(p *bnPlan, s *bnSuite, caller string, suite *btests.SlogBenchmarkSuite, b *testing.B, seen []bnSeen, log []string, out string, x *zcore.Exec) {
	if want := fmt.Sprintf("# Handler[%s]=%q\n", strings.TrimPrefix(caller, "Benchmark"), suite.Creator.Name()); out != want {
		x.Fail("wrong-output", "the suite printed %q instead of %q", out, want)
	}
	var got []bnIssue
	unused := make(map[string]bool)
	testErrors := 0
	for _, w := range suite.GetWarnings() {
		if int(w.Count) != len(w.Data) {
			x.Fail("wrong-count", "warning %s has count %d and %d instances", w.Name, w.Count, len(w.Data))
		}
		for _, d := range w.Data {
			switch w.Name {
			case warning.Unused.Name:
				unused[d.Text] = true
			case warning.TestError.Name:
				testErrors++
			default:
				got = append(got, bnIssue{warn: w.Name, fn: d.Function, text: d.Text})
			}
		}
	}
	var want []bnIssue
	var errs [][]string
	finders := 0
	typ := reflect.TypeOf(suite)
	at := 0
	for i := 0; i < typ.NumMethod(); i++ {
		name := typ.Method(i).Name
		if !strings.HasPrefix(name, "Benchmark") {
			continue
		}
		if s.Logger && strings.HasPrefix(name, "BenchmarkWith") {
			want = append(want, bnIssue{warn: warning.NoHandlerCreation.Name, fn: name})
			continue
		}
		x.Count("benchmarks", 1)
		// Its runs.
		for _, n := range p.N {
			if at == len(seen) || seen[at].name != caller+"/"+name || seen[at].n != n {
				x.Fail("not-run", "%s was not run %d times next: %+v", name, n, seen[min(at, len(seen)):])
				return
			}
			fail := false
			if name != "BenchmarkDisabled" && name != "BenchmarkLogging" {
				lost, l := s.Dev["lineLost"]
				twice, t := s.Dev["lineTwice"]
				a, c := 0, 0
				for i := 1; i <= n; i++ { // A line that is to be lost is not written twice.
					if l && i%(lost+3) == 0 {
						a++
					} else if t && i%(twice+3) == 0 {
						c++
					}
				}
				fail = a != c
			}
			if seen[at].failed != fail {
				x.Fail("wrong-result", "%s of %d executions: failed is %v instead of %v (%+v)", name, n, seen[at].failed, fail, *s)
			}
			if fail {
				x.Count("benchmarks that must fail", 1)
			}
			at++
			if fail {
				break
			}
		}
		if s.Maker >= 0 {
			continue
		}
		// Its checks.
		iss, fs := s.issues(name, caller)
		finders += fs
		var e []string
		for _, w := range iss {
			missed := func(warn, fn string) bool {
				for _, g := range got {
					if g.warn == warn && g.fn == fn && strings.HasPrefix(g.text, strings.TrimSuffix(w.text, "*")) {
						return false
					}
				}
				return w.warn == warn
			}
			// What the suite may overlook altogether is not counted as a wrong set of warnings.
			if missed(warning.Duplicates.Name, w.fn) {
				x.Fail("duplicates-missed", "no warning that a line of %s has a name twice (noDuplicates)", name)
				continue
			}
			if name == "BenchmarkBigGroup" && missed(warning.Mismatch.Name, caller) {
				x.Fail("group-missed", "no warning that a line of %s lacks the group (bigGroupChecker)", name)
				continue
			}
			if w.err != "" {
				e = append(e, w.err)
			}
			if w.warn != "" {
				want = append(want, bnIssue{warn: w.warn, fn: w.fn, text: w.text})
			}
		}
		if e != nil {
			errs = append(errs, e)
		}
		x.Count("deviations to report", len(iss))
	}
	if at < len(seen) {
		x.Fail("not-run", "also run: %+v", seen[at:])
	}
	if s.Maker >= 0 {
		if makers[s.Maker].own {
			for _, g := range got {
				if g.warn != warning.NoHandlerCreation.Name {
					x.Fail("false-warning", "%s is said to deviate: %+v", makers[s.Maker].name, g)
				}
			}
			if len(log) > 0 {
				x.Fail("false-warning", "%s is said to deviate: %q", makers[s.Maker].name, log)
			}
		}
		return
	}
	// Warnings, as sets with multiplicities.
	key := func(i bnIssue) string { return i.warn + "|" + i.fn + "|" + i.text }
	count := make(map[string]int)
	for _, g := range got {
		count[key(g)]++
	}
	for _, w := range want {
		k := key(w)
		if start, ok := strings.CutSuffix(w.text, "*"); ok {
			for _, g := range got {
				if g.warn == w.warn && g.fn == w.fn && strings.HasPrefix(g.text, start) && count[key(g)] > 0 {
					k = key(g)
					break
				}
			}
		}
		if count[k] == 0 {
			x.Fail("missing-warning", "%+v: no warning %s", *s, k)
		}
		count[k]--
	}
	var more []string
	for k, n := range count {
		if n > 0 {
			more = append(more, k)
		}
	}
	sort.Strings(more)
	if more != nil {
		x.Fail("false-warning", "%+v: warnings %q", *s, more)
	}
	if broken := Dev(s.Dev).has("broken"); broken != (testErrors > 0) {
		x.Fail("missing-warning", "%+v: %d warnings that the output is no JSON", *s, testErrors)
	}
	for _, w := range []*warning.Warning{warning.StringAny, warning.Mismatch} {
		used := false
		for _, g := range got {
			used = used || g.warn == w.Name
		}
		if u := slices.Contains(s.Warn, w.Name) && finders > 0 && !used; u != unused[w.Name] {
			x.Fail("wrong-unused", "%+v: %s is unused: %v instead of %v", *s, w.Name, unused[w.Name], u)
		}
	}
	// Errors.
	if len(log) != len(errs) {
		x.Fail("wrong-errors", "%+v: the suite logged %q where %q have to be found", *s, log, errs)
		return
	}
	for i, e := range errs {
		for _, part := range e {
			if !strings.Contains(log[i], part) {
				x.Fail("wrong-errors", "%+v: the suite logged %q, without %q", *s, log[i], part)
			}
		}
	}
}

var benchProp = &zcore.Prop{ID: "C20", Gen: genBnPlan, New: func() any { return &bnPlan{} }, Run: runBnPlan,
	WarmPlans: []any{&bnPlan{N: []int{1}, Procs: 1, Suites: []bnSuite{{Maker: 0}, {Maker: 1}, {Maker: 2}, {Maker: 3}}}},
	Quick:     1000, Thorough: 100000, Length: 400, MaxPts: 2_000_000,
	Rule: "the benchmark suite run against handlers that break its expectations in chosen ways, declared or not, and against real ones, with several numbers of executions by several threads",
	Real: []string{"bench/tests", "infra/warning", "infra", "internal/json", "internal/misc", "internal/test", "creator/*", "handlers/flash", "handlers/sloggy"},
	Stub: []string{"simulated handler", "testing's loop around benchmarks", "goroutine scheduler"}}
