package zsuites

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"maps"
	"math/rand"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	btests "github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ---------------------------------------------------------------------------- C24: from the suites' runs to the results read back

// rsHandler is a handler that both suites are run on.
type rsHandler struct {
	Maker   int            `json:"maker"` // a real creator, or -1: the simulated handler
	Name    int            `json:"name"`
	Dev     map[string]int `json:"dev"`
	Warn    []string       `json:"warn"` // declared
	Logger  bool           `json:"logger"`
	Summary int            `json:"summary"`
	Skip    int            `json:"skip"` // 1: not benchmarked, 2: not verified
	Parts   int            `json:"parts"`
}

type rsPlan struct {
	Handlers []rsHandler       `json:"handlers"`
	N        []int             `json:"n"`
	Procs    int               `json:"procs"`
	Count    int               `json:"count"` // as with go test -count
	Verbose  bool              `json:"verbose"`
	Figures  int64             `json:"figures"`
	Exit     int               `json:"exit"` // what the tests' run returns
	Chunks   [2]zsim.ReadFault `json:"chunks"`
	JustOne  []string          `json:"justone"` // tests of the verification suite that are run; none: all
}

var rsNames = []string{"sim/handler", "other/handler", "sim/handler/two", "Simple", "x-y/z.w_1"}

var rsSummaries = []struct {
	text  string
	links infra.Links
}{
	{"", nil},
	{"a handler", nil},
	{"a *handler*\nof `two` lines", infra.Links{"Home": "https://example.com/home"}},
	{"first\n\n* one\n* two\n\nlast: \"quoted\" <b>", infra.Links{"A b": "https://a.example/b?c=d#e", "C": "/local"}},
	{"", infra.Links{"Unseen": "/nowhere"}},
}

func genRsPlan(r *zcore.Rand) any {
	p := &rsPlan{Procs: zcore.Pick(r, 1, 1, 2, 8), N: []int{1}, Count: 1, Verbose: r.P(0.5), Figures: int64(r.N(1 << 30)), Exit: r.N(2)}
	if r.P(0.5) {
		p.N = append(p.N, r.Range(2, 3))
	}
	if r.P(0.15) {
		p.Count = 2
	}
	for i := range p.Chunks {
		if r.P(0.7) {
			for k := r.Range(1, 4); k > 0; k-- {
				p.Chunks[i].Chunks = append(p.Chunks[i].Chunks, zcore.Pick(r, 3, 7, 100, 511, 4096))
			}
		}
		p.Chunks[i].EOFData, p.Chunks[i].Zero = r.P(0.4), r.P(0.3)
	}
	all := deviations()
	for i := r.Range(1, 4); i > 0; i-- {
		h := rsHandler{Maker: -1, Name: r.N(len(rsNames)), Dev: map[string]int{}, Logger: r.P(0.2), Summary: r.N(len(rsSummaries)), Parts: r.N(3)}
		if r.P(0.2) {
			h.Maker = r.N(4)
		} else if r.P(0.8) {
			for k := r.Range(1, zcore.Pick(r, 1, 2, 5)); k > 0; k-- {
				if r.P(0.3) {
					h.Dev[bnDevs[r.N(len(bnDevs))]] = r.N(3)
					continue
				}
				d := all[r.N(len(all))]
				h.Dev[d.name] = r.N(d.variants)
				if d.warn != nil && r.P(0.8) {
					for _, w := range append([]*warning.Warning{d.warn}, d.also...) {
						h.Warn = append(h.Warn, w.Name)
					}
				}
			}
		}
		for r.P(0.4) {
			h.Warn = append(h.Warn, unneeded[r.N(len(unneeded))].Name)
		}
		if r.P(0.2) {
			h.Skip = r.Range(1, 2)
		}
		p.Handlers = append(p.Handlers, h)
	}
	if r.P(0.6) {
		p.JustOne = append(p.JustOne, "TestDefaultLevel")
		for r.P(0.9) {
			p.JustOne = append(p.JustOne, vfTests[r.N(len(vfTests))])
		}
	}
	return p
}

// BenchmarkA9 is another function that runs a suite.
func BenchmarkA9(b *testing.B, s *btests.SlogBenchmarkSuite) { btests.Run(b, s) }

var rsFunctions = append(slices.Clone(bnFunctions), struct {
	tag string
	run func(*testing.B, *btests.SlogBenchmarkSuite)
}{"A9", BenchmarkA9})

func (h *rsHandler) creator() infra.Creator {
	if h.Maker >= 0 {
		return makers[h.Maker%4].make()
	}
	mk := func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		s := newSimHandler(w, o, h.Dev)
		s.parts = h.Parts
		return s
	}
	sum := rsSummaries[h.Summary%len(rsSummaries)]
	name := rsNames[h.Name%len(rsNames)]
	if h.Logger {
		return infra.NewCreator(name, nil, func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(mk(w, o)) }, sum.text, sum.links)
	}
	return infra.NewCreator(name, mk, nil, sum.text, sum.links)
}

// rsInst is a warning as it has to be found in the results.
type rsInst struct {
	level                warning.Level
	name, summary        string
	tag, source          string
	extra, line, handler string
}

func (i rsInst) String() string {
	return fmt.Sprintf("%s %s [%s] %q %s.%s %q %q", i.handler, i.level, i.name, i.summary, i.source, i.tag, i.extra, i.line)
}

// rsIssues is what a manager has to tell.
func rsIssues(m *warning.Manager, source string) (out []rsInst) {
	for _, w := range m.GetWarnings() {
		for _, d := range w.Data {
			tag, text, _ := strings.Cut(d.Function, ": ") // some give more than a name
			if text != "" && d.Text != "" {
				text += ": "
			}
			text += d.Text
			for again := true; again; {
				again = false
				for _, p := range []string{"Benchmark", "Test"} {
					if t, ok := strings.CutPrefix(tag, p); ok {
						tag, again = strings.TrimPrefix(t, "_"), true
					}
				}
			}
			lines := strings.Split(text, "\n")
			for i := range lines {
				lines[i] = strings.TrimRight(lines[i], " \t")
			}
			lines[0] = strings.TrimLeft(lines[0], " ")
			out = append(out, rsInst{level: w.Level, name: w.Name, summary: w.Summary, tag: tag, source: source,
				extra: strings.Join(lines, "\n"), line: strings.TrimRight(d.Record, " \r\n"), handler: m.Name})
		}
	}
	return out
}

// testMain does what the packages with the suites do in TestMain: run everything, then show the warnings.
func testMain(x *zcore.Exec, code int, run func()) (ok bool) {
	s := x.Sim()
	exit := -1
	testing.ZsimRun = func() int {
		run()
		return code
	}
	defer func() { testing.ZsimRun = nil }()
	s.Spawn("main", func() {
		defer func() {
			r := recover()
			if e, ok := r.(*zsim.ExitPanic); ok {
				exit = e.Code
			} else if r != nil {
				panic(r)
			}
		}()
		warning.WithWarnings(&testing.M{})
	})
	if !x.RunSim(s) {
		return false
	}
	if exit != code {
		x.Fail("wrong-exit", "the tests end with exit code %d instead of %d", exit, code)
	}
	return true
}

type rsKey struct{ handler, test string }

func runRsPlan(plan any, x *zcore.Exec) {
	p := plan.(*rsPlan)
	oldDefault, oldOut := slog.Default(), zsim.Stdout
	restore := func() {
		slog.SetDefault(oldDefault)
		zsim.Stdout = oldOut
		testing.ZsimSeen, testing.ZsimGo = nil, nil
		zsim.IntnIs = nil
	}
	defer restore()
	log := &bnLog{}
	slog.SetDefault(slog.New(log))
	zsim.IntnIs = func(int) int { return 0 }
	known := make(map[string]bool)
	for _, l := range [][]*warning.Warning{warning.Required(), warning.Implied(), warning.Suggested(), warning.Administrative()} {
		for _, w := range l {
			known[w.Name] = true
		}
	}
	// No two of a name.
	names := make(map[string]bool)
	handlers := slices.Clone(p.Handlers)
	handlers = slices.DeleteFunc(handlers, func(h rsHandler) bool {
		c := h.creator()
		defer func() { names[c.Name()] = true }()
		return names[c.Name()]
	})
	handlers = handlers[:min(len(handlers), len(rsFunctions))]
	declare := func(only func(*warning.Warning), h *rsHandler) {
		for _, n := range h.Warn {
			if w := warning.ByName(n); w != nil && known[n] {
				only(w)
			}
		}
	}
	testing.ZsimGo = func(f func()) { zsim.Go(f) }
	testing.ZsimProcs, testing.ZsimN = p.Procs, p.N

	// The benchmarks' process.
	fig := rand.New(rand.NewSource(p.Figures))
	figures := make(map[rsKey]map[string]string) // by unit
	var out bytes.Buffer
	zsim.Stdout = &out
	var issues []rsInst
	suffix := ""
	if p.Procs != 1 {
		suffix = "-" + strconv.Itoa(p.Procs)
	}
	fmt.Fprint(&out, "goos: linux\ngoarch: amd64\npkg: github.com/madkins23/go-slog/bench\ncpu: Sim(R) 1.0GHz\n")
	var benched []*btests.SlogBenchmarkSuite
	ok := testMain(x, p.Exit, func() {
		for i := range handlers {
			h := &handlers[i]
			if h.Skip == 1 {
				continue
			}
			f := rsFunctions[i]
			for c := 0; c < p.Count; c++ {
				if p.Verbose {
					fmt.Fprintf(&out, "Benchmark%s\n", f.tag)
				}
				testing.ZsimSeen = func(b *testing.B, n int, failed bool) {
					test := strings.TrimPrefix(b.Name(), "Benchmark"+f.tag+"/Benchmark")
					if failed {
						fmt.Fprintf(&out, "--- FAIL: %s%s\n    suite.go:1: no\n", b.Name(), suffix)
					}
					if failed || n != p.N[len(p.N)-1] {
						return
					}
					if p.Verbose {
						fmt.Fprintf(&out, "%s\n", b.Name())
					}
					res := testing.BenchmarkResult{N: 1 + fig.Intn(1<<uint(fig.Intn(30))), T: time.Duration(1 + fig.Int63n(1<<uint(1+fig.Intn(40))))}
					res.MemAllocs = uint64(fig.Intn(1 << uint(fig.Intn(30))))
					res.MemBytes = uint64(fig.Intn(1 << uint(fig.Intn(30))))
					res.Bytes = int64(fig.Intn(4)) * int64(fig.Intn(1000))
					line := res.String() + "\t" + res.MemString()
					fmt.Fprintf(&out, "%s%s\t%s\n", b.Name(), suffix, line)
					m := map[string]string{"N": strconv.Itoa(res.N)}
					tok := strings.Fields(line)
					for k := 2; k < len(tok); k += 2 {
						m[tok[k]] = tok[k-1]
					}
					figures[rsKey{f.tag, test}] = m
				}
				s := btests.NewSlogBenchmarkSuite(h.creator())
				declare(s.WarnOnly, h)
				f.run(testing.ZsimB("Benchmark"+f.tag), s)
				if c == p.Count-1 {
					benched = append(benched, s)
				}
			}
		}
		for _, s := range benched {
			issues = append(issues, rsIssues(s.Manager, "Bench")...)
		}
		out.WriteString("PASS\n")
	})
	if !ok {
		return
	}
	out.WriteString("ok  \tgithub.com/madkins23/go-slog/bench\t12.345s\n")
	benchText := out.String()
	bLog := log.text

	// The verification's process: another one, so nothing is left of the first.
	zsim.RestoreGlobals()
	slog.SetDefault(slog.New(log))
	out = bytes.Buffer{}
	zsim.Stdout = &out
	var order func(int) []int
	if p.JustOne == nil {
		order = rand.New(rand.NewSource(p.Figures)).Perm
	} else {
		order = func(int) (o []int) {
			for i, t := range vfTests {
				if slices.Contains(p.JustOne, t) {
					o = append(o, i)
				}
			}
			return o
		}
	}
	ok = testMain(x, 1-p.Exit, func() {
		for i := range handlers {
			h := &handlers[i]
			if h.Skip == 2 {
				continue
			}
			for c := 0; c < p.Count; c++ {
				if p.Verbose {
					fmt.Fprintf(&out, "=== RUN   TestVerify%d\n", i)
				}
				s := newVerify(h.creator())
				declare(s.WarnOnly, h)
				v := runTests(s, order, false, x)
				for _, t := range slices.Sorted(maps.Keys(v.failed)) {
					fmt.Fprintf(&out, "    --- FAIL: TestVerify%d/%s (0.00s)\n%s", i, t, v.failed[t])
				}
				if c == p.Count-1 {
					issues = append(issues, rsIssues(s.Manager, "Verify")...)
				}
			}
		}
		out.WriteString("FAIL\n")
	})
	if !ok {
		return
	}
	out.WriteString("FAIL\tgithub.com/madkins23/go-slog/verify\t1.234s\nFAIL\n")
	verifyText := out.String()
	vLog := log.text[len(bLog):]
	_ = vLog

	// The server's process.
	zsim.RestoreGlobals()
	log.text = nil
	slog.SetDefault(slog.New(log))
	zsim.Stdout = io.Discard
	b, w := data.NewBenchmarks(), data.NewWarnings()
	var err error
	s := x.Sim()
	s.Spawn("server", func() {
		if err = b.ParseBenchmarkData(zsim.NewStream([]byte(benchText), p.Chunks[0])); err != nil {
			return
		}
		if b.HasWarningText() {
			if err = w.ParseWarningData(bytes.NewReader(b.WarningText()), "Bench", b.HandlerLookup()); err != nil {
				return
			}
		}
		err = w.ParseWarningData(zsim.NewStream([]byte(verifyText), p.Chunks[1]), "Verify", b.HandlerLookup())
	})
	if !x.RunSim(s) {
		return
	}
	if err != nil {
		x.Fail("not-read", "what the suites printed cannot be read: %v", err)
		return
	}
	for _, l := range log.text {
		if !strings.HasPrefix(l, "Default handler name") && !strings.HasPrefix(l, "Unprocessed line") && !strings.Contains(l, "&{FAIL ") { // lines of go test
			x.Fail("complaint", "reading what the suites printed: %s", l)
		}
	}
	checkResults(p, handlers, b, w, figures, issues, x)
	if len(x.Viols) > 0 {
		x.Note(fmt.Sprintf("benchmarks printed:\n%s\nverification printed:\n%s", benchText, verifyText))
	}
}

func checkResults(p *rsPlan, handlers []rsHandler, b *data.Benchmarks, w *data.Warnings, figures map[rsKey]map[string]string, issues []rsInst, x *zcore.Exec) {
	x.Count("figures", len(figures))
	x.Count("warnings", len(issues))
	// Figures.
	left := maps.Clone(figures)
	for _, h := range b.HandlerTags() {
		for test, rec := range b.TestRecordsFor(h) {
			k := rsKey{string(h), strings.TrimPrefix(string(test), "Bench.")}
			want, ok := figures[k]
			if !ok {
				x.Fail("invented-result", "a result of %s for %s was never printed", h, test)
				continue
			}
			delete(left, k)
			mb, _ := strconv.ParseFloat(want["MB/s"], 64)
			ns, _ := strconv.ParseFloat(want["ns/op"], 64)
			num := func(s string) uint64 {
				n, _ := strconv.ParseUint(s, 10, 64)
				return n
			}
			wr := data.TestRecord{Runs: num(want["N"]), NanosPerOp: ns, MemAllocsPerOp: num(want["allocs/op"]), MemBytesPerOp: num(want["B/op"]),
				MbPerSec: mb, GbPerSec: mb / 1e3, TbPerSec: mb / 1e6}
			if rec != wr {
				x.Fail("wrong-result", "the result of %s for %s is %+v, printed was %+v", h, test, rec, want)
			}
			if b.HandlerRecordsFor(test)[h] != rec {
				x.Fail("wrong-result", "by test, the result of %s for %s is another one", h, test)
			}
		}
	}
	for k := range left {
		x.Fail("lost-result", "the result of %s for %s was printed and not read", k.handler, k.test)
	}
	// Names of handlers.
	tags := make(map[string]data.HandlerTag)
	for i := range handlers {
		c := handlers[i].creator()
		name := c.Name()
		if handlers[i].Skip == 1 {
			tags[name] = data.HandlerTag(name)
			continue
		}
		tag := data.HandlerTag(rsFunctions[i].tag)
		tags[name] = tag
		if got := b.HandlerName(tag); got != name {
			x.Fail("wrong-name", "handler %s is called %q instead of %q", tag, got, name)
		}
		if got := w.HandlerName(tag); got != name {
			x.Fail("wrong-name", "handler %s is called %q instead of %q among the warnings", tag, got, name)
		}
		if handlers[i].Skip == 2 {
			continue
		}
		// Only a summary is printed, with its links.
		var links map[string]string
		sum := ""
		if c.HasSummary() {
			sum, links = c.Summary(), c.Links()
			lines := strings.Split(sum, "\n")
			for i := range lines {
				lines[i] = strings.TrimSpace(lines[i])
			}
			sum = strings.Join(lines, "\n")
		}
		if w.HasHandlerSummary(tag) != (sum != "") || sum != "" && w.HandlerSummaryHTML(tag) != markdown.TemplateHTML(sum, true) {
			x.Fail("wrong-summary", "handler %s has the summary %q, the creator's is %q", tag, w.HandlerSummaryHTML(tag), sum)
		}
		if got := w.HandlerLinks(tag); len(got)+len(links) > 0 && !reflect.DeepEqual(map[string]string(got), map[string]string(links)) {
			x.Fail("wrong-links", "handler %s has the links %v, the creator's are %v", tag, got, links)
		}
	}
	var got, want []string
	for _, h := range w.HandlerTags() {
		got = append(got, string(h))
	}
	for _, t := range tags {
		want = append(want, string(t))
	}
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		x.Fail("wrong-handlers", "the handlers with warnings or none are %q instead of %q", got, want)
		return
	}
	// Warnings by handler, by test and by warning.
	lines := make(map[string]int)
	byHandler := make(map[string]int)
	byTest := make(map[string]int)
	count := make(map[string]uint)
	for _, i := range issues {
		h := tags[i.handler]
		lines[fmt.Sprintf("%s|%v|%s|%s", h, i.level, i.name, i.summary)]++
		if byHandler != nil {
			byHandler[fmt.Sprintf("%s|%v|%s|%s.%s|%q|%q", h, i.level, i.name, i.source, i.tag, i.extra, i.line)]++
		}
		byTest[fmt.Sprintf("%s.%s|%v|%s|%s|%s|%q|%q", i.source, i.tag, i.level, i.name, i.summary, h.Name(), i.extra, i.line)]++
		count[string(h)+"|"+i.name]++
	}
	for _, h := range w.HandlerTags() {
		for _, l := range w.ForHandler(h).Levels() {
			for _, dw := range l.Warnings() {
				k := fmt.Sprintf("%s|%v|%s|%s", h, l.Level, dw.Name(), dw.Summary())
				if lines[k] != len(dw.Instances()) {
					x.Fail("wrong-warnings", "%s has %d instances instead of %d", k, len(dw.Instances()), lines[k])
				}
				delete(lines, k)
				for _, in := range dw.Instances() {
					byHandler[fmt.Sprintf("%s|%v|%s|%s.%s|%q|%q", h, l.Level, dw.Name(), in.Source(), in.Tag(), in.Extra(), in.Line())]--
				}
				if wn := warning.ByName(dw.Name()); wn == nil {
					x.Fail("unknown-warning", "no warning %q", dw.Name())
				} else if c := w.HandlerWarningCount(h, wn); c != count[string(h)+"|"+dw.Name()] {
					x.Fail("wrong-count", "%s has warning %s %d times instead of %d", h, dw.Name(), c, count[string(h)+"|"+dw.Name()])
				}
			}
		}
	}
	for _, t := range w.TestTags() {
		for _, l := range w.ForTest(t).Levels() {
			for _, dw := range l.Warnings() {
				for _, in := range dw.Instances() {
					byTest[fmt.Sprintf("%s|%v|%s|%s|%s|%q|%q", t, l.Level, dw.Name(), dw.Summary(), in.Name(), in.Extra(), in.Line())]--
				}
			}
		}
	}
	for _, k := range slices.Sorted(maps.Keys(lines)) {
		x.Fail("lost-warning", "%s was reported %d times and not read", k, lines[k])
	}
	for i, m := range []map[string]int{byHandler, byTest} {
		what := []string{"handler", "test"}[i]
		for _, k := range slices.Sorted(maps.Keys(m)) {
			if n := m[k]; n > 0 {
				x.Fail("lost-warning", "not found by %s: %s", what, k)
			} else if n < 0 {
				x.Fail("invented-warning", "found by %s, but never reported: %s", what, k)
			}
		}
	}
}

var resultsProp = &zcore.Prop{ID: "C24", Gen: genRsPlan, New: func() any { return &rsPlan{} }, Run: runRsPlan,
	WarmPlans: []any{&rsPlan{N: []int{1}, Procs: 1, Count: 1, Handlers: []rsHandler{{Maker: 0}, {Maker: 1}, {Maker: 2}, {Maker: 3}}}},
	Quick:     2000, Thorough: 100000, Length: 400, MaxPts: 4_000_000,
	Rule: "both suites run on one to four handlers that deviate in chosen ways, in a process each that prints what go test prints; what is printed is read through a reader of arbitrary pieces and compared with the figures and with what the suites found",
	Real: []string{"bench/tests", "verify/tests", "infra/warning", "infra", "internal/data", "internal/json", "internal/misc", "internal/markdown", "internal/test", "creator/*", "handlers/*", "replace"},
	Stub: []string{"simulated handler", "testing's loop around benchmarks, its figures", "testify's runner", "clock", "goroutine scheduler", "files of results"}}
