package zweb

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ---------------------------------------------------------------------------- C12: warning managers and their report

// mgrOp is one call of a warning manager.
type mgrOp struct {
	Op   string   `json:"op"` // predefine, only, add, fn, fntext, unused, skip, skipif, has, get
	Warn []string `json:"warn"`
	In   int      `json:"in"` // function from within which it is called
	Fn   string   `json:"fn"`
	Text string   `json:"text"`
	Rec  string   `json:"rec"`
}

type mgrPlan struct {
	World  *world            `json:"world"` // benchmark results, summaries; its issues are not used
	Ops    [2][][]mgrOp      `json:"ops"`   // by source and handler
	Show   int               `json:"show"`  // ShowWarnings is called this many times extra
	Chunks [2]zsim.ReadFault `json:"chunks"`
	Order  int               `json:"order"`
}

func genMgrPlan(r *zcore.Rand) any {
	p := &mgrPlan{World: genWorld(r, false), Show: zcore.Pick(r, 0, 0, 0, 1, 2), Order: r.N(1 << 16)}
	names := allWarningNames()
	for i := 0; i < 8; i++ {
		j := i + r.N(len(names)-i)
		names[i], names[j] = names[j], names[i]
	}
	names = names[:r.Range(2, 8)]
	if r.P(0.3) {
		names = append(names, "Unused", "SkippingTest", "Undefined")
	}
	for s := 0; s < 2; s++ {
		for range p.World.Handlers {
			var ops []mgrOp
			n := r.N(10)
			if r.P(0.01) {
				n = r.Range(40, 120)
			}
			for i := n; i > 0; i-- {
				op := mgrOp{Op: zcore.Pick(r, "predefine", "only", "only", "add", "add", "fn", "fntext", "fntext", "unused", "unused", "skip", "skipif", "has", "get"),
					In: r.N(len(callers)), Fn: fnPool[r.N(len(fnPool))], Text: genText(r), Rec: genRecord(r)}
				for j := 0; j == 0 || j < 3 && r.P(0.4); j++ {
					op.Warn = append(op.Warn, names[r.N(len(names))])
				}
				ops = append(ops, op)
			}
			p.Ops[s] = append(p.Ops[s], ops)
		}
		p.Chunks[s] = genChunks(r)
	}
	return p
}

// Functions whose names mean something to the manager.
func TestZed(f func())        { f() }
func Test_Two(f func())       { f() }
func BenchmarkZed(f func())   { f() }
func Benchmark_Test(f func()) { f() }
func Otherwise(f func())      { f() }
func TestDeep(f func())       { deeper(2, f) }
func deeper(n int, f func()) {
	if n > 0 {
		deeper(n-1, f)
	} else {
		f()
	}
}

var callers = []struct {
	f     func(func())
	names [2]string // with prefix Benchmark, with prefix Test
}{{TestZed, [2]string{"Unknown", "TestZed"}}, {Test_Two, [2]string{"Unknown", "Test_Two"}}, {BenchmarkZed, [2]string{"BenchmarkZed", "Unknown"}},
	{Benchmark_Test, [2]string{"Benchmark_Test", "Unknown"}}, {Otherwise, [2]string{"Unknown", "Unknown"}}, {TestDeep, [2]string{"Unknown", "TestDeep"}}}

func warningNamed(name string) *warning.Warning {
	if w := warning.ByName(name); w != nil {
		return w
	}
	panic("no warning " + name)
}

// mgrModel is what a manager should know.
type mgrModel struct {
	predefined, only map[string]bool
	issues           []wIssue
}

func (m *mgrModel) has(name string) bool {
	for _, is := range m.issues {
		if is.Warning == name {
			return true
		}
	}
	return false
}

// clean drops the unused warnings that were issued after all.
func (m *mgrModel) clean() {
	seen := make(map[string]bool)
	for _, is := range m.issues {
		seen[is.Warning] = true
	}
	var out []wIssue
	for _, is := range m.issues {
		if is.Warning == "Unused" && seen[is.Text] {
			continue
		}
		out = append(out, is)
	}
	m.issues = out
}

func runMgrPlan(pl any, x *zcore.Exec) {
	p := pl.(*mgrPlan)
	col := &collector{min: 100}
	withDefault(col, func() {
		makeWarnings()
		var texts [2]string
		var expText [2]string
		byWarn := make(map[string]map[string]bool)
		s := x.Sim()
		world := *p.World
		world.Handlers = append([]wHandler(nil), p.World.Handlers...)
		byWarnText := ""
		s.Spawn("manager", func() {
			for src := 0; src < 2; src++ {
				fnPrefix := [2]string{"Benchmark", "Test"}[src]
				prefix := [2]string{"# ", ""}[src]
				dest := &zsim.Dest{}
				for i := range world.Handlers {
					h := &world.Handlers[i]
					if !h.Show[src] {
						continue
					}
					mgr := warning.NewWarningManager(h.Name, fnPrefix, prefix)
					m := &mgrModel{predefined: make(map[string]bool), only: make(map[string]bool)}
					for _, w := range warning.Administrative() {
						m.predefined[w.Name] = true
					}
					for k := 0; i < len(p.Ops[src]) && k < len(p.Ops[src][i]); k++ {
						applyMgr(x, mgr, m, src, &p.Ops[src][i][k])
					}
					for k := 0; k < p.Show; k++ { // an earlier report is the same as the one that counts
						var b bytes.Buffer
						mgr.ShowWarnings(&b)
						m.clean()
						h.Warn[src] = m.issues
						if want := plainSection(src, h); b.String() != want {
							x.Fail("report", "%s", firstDiff(b.String(), want))
						}
					}
					mgr.ShowWarnings(dest)
					m.clean()
					h.Warn[src] = m.issues
					expText[src] += plainSection(src, h)
					checkInstances(x, mgr, m)
					for _, is := range m.issues {
						if byWarn[is.Warning] == nil {
							byWarn[is.Warning] = make(map[string]bool)
						}
						byWarn[is.Warning][h.Name] = true
					}
					x.Count("issues", len(m.issues))
				}
				for _, c := range dest.Chunks {
					texts[src] += string(c.Data)
				}
			}
			out := &zsim.Dest{}
			old := zsim.Stdout
			zsim.Stdout = out
			warning.ShowHandlersByWarning("")
			zsim.Stdout = old
			for _, c := range out.Chunks {
				byWarnText += string(c.Data)
			}
		})
		if !x.RunSim(s) {
			return
		}
		for src := 0; src < 2; src++ {
			x.Note(texts[src])
			if texts[src] != expText[src] {
				x.Fail("report", "%s", firstDiff(texts[src], expText[src]))
			}
		}
		x.Note(byWarnText)
		if want := byWarningText(byWarn); byWarnText != want {
			x.Fail("by-warning", "%s", firstDiff(byWarnText, want))
		}
		if len(x.Viols) > 0 {
			return
		}
		// The parsers find in the report what the managers were told.
		bench, verify := world.files(func(src int, h *wHandler) string { return plainSection(src, h) }, [2]string{"", byWarnText})
		b, w := data.NewBenchmarks(), data.NewWarnings()
		s = x.Sim()
		s.Spawn("parser", func() {
			if err := parseAll(b, w, zsim.NewStream([]byte(bench), p.Chunks[0]), zsim.NewStream([]byte(verify), p.Chunks[1])); err != nil {
				x.Fail("parse", "%v", err)
			}
		})
		if x.RunSim(s) {
			checkWarnings(x, &world, b, w)
			noteFindings(x, w)
		}
	})
}

func noteFindings(x *zcore.Exec, w *data.Warnings) {
	for _, f := range sorted(parsedFindings(w)) {
		x.Note(f)
	}
}

func parseAll(b *data.Benchmarks, w *data.Warnings, bench, verify io.Reader) error {
	if err := b.ParseBenchmarkData(bench); err != nil {
		return err
	}
	if err := w.ParseWarningData(bytes.NewReader(b.WarningText()), "Bench", b.HandlerLookup()); err != nil {
		return err
	}
	return w.ParseWarningData(verify, "Verify", b.HandlerLookup())
}

func firstDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		if i >= len(g) {
			return fmt.Sprintf("ends at line %d instead of %q", i+1, w[i])
		}
		if i >= len(w) {
			return fmt.Sprintf("line %d %q where it should end", i+1, g[i])
		}
		if g[i] != w[i] {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, g[i], w[i])
		}
	}
	return ""
}

func applyMgr(x *zcore.Exec, mgr *warning.Manager, m *mgrModel, src int, op *mgrOp) {
	var ws []*warning.Warning
	for _, n := range op.Warn {
		ws = append(ws, warningNamed(n))
	}
	if len(ws) == 0 {
		return
	}
	w := ws[0]
	caller := callers[op.In]
	fn := caller.names[src]
	add := func(w *warning.Warning, fn, text, rec string) {
		m.issues = append(m.issues, wIssue{Warning: w.Name, Fn: fn, Text: text, Record: rec})
	}
	skip := func(w *warning.Warning) {
		add(warning.SkippingTest, fn, w.Summary, "")
		add(w, fn, warning.SkippingTest.Summary, "")
	}
	switch op.Op {
	case "predefine":
		caller.f(func() { mgr.Predefine(ws...) })
		for _, w := range ws {
			m.predefined[w.Name] = true
		}
	case "only":
		caller.f(func() { mgr.WarnOnly(w) })
		if !m.predefined[w.Name] {
			add(warning.Undefined, fn, w.Summary, "")
		}
		m.only[w.Name] = true
	case "add":
		caller.f(func() { mgr.AddWarning(w, op.Text, op.Rec) })
		add(w, fn, op.Text, op.Rec)
	case "fn":
		caller.f(func() { mgr.AddWarningFn(w, op.Fn, op.Rec) })
		add(w, op.Fn, "", op.Rec)
	case "fntext":
		caller.f(func() { mgr.AddWarningFnText(w, op.Fn, op.Text, op.Rec) })
		add(w, op.Fn, op.Text, op.Rec)
	case "unused":
		caller.f(func() { mgr.AddUnused(w, op.Rec) })
		add(warning.Unused, fn, w.Name, op.Rec)
	case "skip":
		caller.f(func() { mgr.SkipTest(w) })
		skip(w)
	case "skipif":
		var got bool
		caller.f(func() { got = mgr.SkipTestIf(ws...) })
		want := false
		for _, w := range ws {
			if m.only[w.Name] {
				skip(w)
				want = true
				break
			}
		}
		if got != want {
			x.Fail("skip", "SkipTestIf(%v) = %v", op.Warn, got)
		}
	case "has":
		var want, got []string
		for _, w := range ws {
			if m.only[w.Name] {
				want = append(want, w.Name)
			}
			if mgr.HasWarning(w) != m.only[w.Name] {
				x.Fail("has", "HasWarning(%s) = %v", w.Name, !m.only[w.Name])
			}
		}
		for _, w := range mgr.HasWarnings(ws...) {
			got = append(got, w.Name)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail("has", "HasWarnings(%v) = %v", op.Warn, got)
		}
	case "get":
		m.clean()
		checkInstances(x, mgr, m)
	}
}

// checkInstances compares GetWarnings with the model.
func checkInstances(x *zcore.Exec, mgr *warning.Manager, m *mgrModel) {
	var got, want []string
	for _, in := range mgr.GetWarnings() {
		got = append(got, fmt.Sprintf("%v %s %q %d", in.Level, in.Name, in.Summary, in.Count))
		for _, d := range in.Data {
			got = append(got, fmt.Sprintf("%q", d))
		}
	}
	for _, g := range expectSection(m.issues) {
		want = append(want, fmt.Sprintf("%v %s %q %d", g.level, g.name, g.summary, len(g.items)))
		for _, it := range g.items {
			want = append(want, fmt.Sprintf("%q", warning.Instance{Function: it.Fn, Record: strings.TrimRight(it.Record, "\n"), Text: it.Text}))
		}
	}
	if d := firstDiff(strings.Join(got, "\n"), strings.Join(want, "\n")); d != "" {
		x.Fail("instances", "%s: %s", mgr.Name, d)
	}
}

// byWarningText is the list of handlers by warning.
func byWarningText(m map[string]map[string]bool) string {
	if len(m) == 0 {
		return ""
	}
	var issues []wIssue
	for n := range m {
		issues = append(issues, wIssue{Warning: n})
	}
	var b strings.Builder
	b.WriteString("\n Handlers by warning:\n")
	last := warning.Level(0)
	for _, g := range expectSection(issues) {
		if g.level != last {
			fmt.Fprintf(&b, "  %s\n", g.level.String())
			last = g.level
		}
		fmt.Fprintf(&b, "    [%s] %s\n", g.name, g.summary)
		var hs []string
		for h := range m[g.name] {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			fmt.Fprintf(&b, "      %s\n", h)
		}
	}
	return b.String()
}

// checkWarnings compares everything the parsed warnings say with the world.
func checkWarnings(x *zcore.Exec, world *world, b *data.Benchmarks, w *data.Warnings) {
	exp := world.findings()
	if d := diff(sorted(parsedFindings(w)), sorted(exp)); d != "" {
		x.Fail("findings", "%s", d)
		return
	}
	x.Count("findings", len(exp))
	// Handlers
	shown := make(map[string]*wHandler)
	for i := range world.Handlers {
		h := &world.Handlers[i]
		if h.Show[0] || h.Show[1] {
			shown[world.warnTag(h)] = h
		}
	}
	var tags []string
	for _, t := range w.HandlerTags() {
		tags = append(tags, string(t))
		if shown[string(t)] == nil || !w.HasHandler(t) {
			x.Fail("handlers", "handler %q from nowhere", t)
			return
		}
	}
	if len(tags) != len(shown) {
		x.Fail("handlers", "handlers %v, want %v", tags, shown)
	}
	for i := 1; i < len(tags); i++ {
		if w.HandlerName(data.HandlerTag(tags[i-1])) > w.HandlerName(data.HandlerTag(tags[i])) {
			x.Fail("handlers", "handlers not in order of their names: %v", tags)
		}
	}
	defs := world.defs()
	for tag, h := range shown {
		name := w.HandlerName(data.HandlerTag(tag))
		if _, known := defs[h.Name]; known && name != h.Name || !known && !strings.EqualFold(strings.ReplaceAll(name, " ", "/"), h.Name) {
			x.Fail("handler-name", "handler %q is named %q instead of %q", tag, name, h.Name)
		}
		counts := make(map[string]uint)
		levels := make(map[string]map[string]bool)
		for _, f := range exp {
			if f.Handler == tag {
				counts[f.Warning]++
				if levels[f.Level] == nil {
					levels[f.Level] = make(map[string]bool)
				}
				levels[f.Level][f.Warning] = true
			}
		}
		for _, wn := range allWarningNames() {
			if c := w.HandlerWarningCount(data.HandlerTag(tag), warningNamed(wn)); c != counts[wn] {
				x.Fail("count", "%d warnings %s for %s instead of %d", c, wn, tag, counts[wn])
			}
		}
		for _, l := range warning.LevelOrder {
			if c := w.ForHandler(data.HandlerTag(tag)).LevelCount(l); c != uint64(len(levels[l.String()])) {
				x.Fail("level-count", "%d warnings of level %v for %s instead of %d", c, l, tag, len(levels[l.String()]))
			}
		}
	}
	for i := range world.Handlers {
		h := &world.Handlers[i]
		tag, known := defs[h.Name]
		if !known {
			continue
		}
		sum := strings.Join(h.Summary, "\n")
		if w.HasHandlerSummary(data.HandlerTag(tag)) != (sum != "") {
			x.Fail("summary", "summary of %s: %v", tag, sum == "")
		} else if got, want := w.HandlerSummaryHTML(data.HandlerTag(tag)), markdown.TemplateHTML(sum, true); sum != "" && got != want {
			x.Fail("summary", "summary of %s is %q instead of %q", tag, got, want)
		}
		links := make(map[string]string)
		if sum != "" {
			for _, l := range h.Links {
				links[l[0]] = l[1]
			}
		}
		if got := w.HandlerLinks(data.HandlerTag(tag)); len(got) != len(links) || len(links) > 0 && fmt.Sprint(got) != fmt.Sprint(links) || w.HasHandlerLinks(data.HandlerTag(tag)) != (len(links) > 0) {
			x.Fail("links", "links of %s are %v instead of %v", tag, got, links)
		}
	}
	// Tests
	byTest := make(map[string][]string)
	testName := make(map[string]string)
	byWarn := make(map[string][2]map[string]bool)
	for _, f := range exp {
		t := f.Source + data.TagSeparator + f.Tag
		testName[t] = camel(f.Tag)
		byTest[t] = append(byTest[t], fmt.Sprintf("%s %s %q %s %q %q", f.Level, f.Warning, f.Summary, camel(f.Handler), f.Extra, canonical(f.Line)))
		if byWarn[f.Warning][0] == nil {
			byWarn[f.Warning] = [2]map[string]bool{{}, {}}
		}
		byWarn[f.Warning][0][f.Handler] = true
		byWarn[f.Warning][1][t] = true
	}
	if got := w.TestTags(); len(got) != len(byTest) {
		x.Fail("tests", "tests %v, want %d", got, len(byTest))
	}
	last := ""
	for _, t := range w.TestTags() {
		if byTest[string(t)] == nil || !w.HasTest(t) {
			x.Fail("tests", "test %s from nowhere", t)
			return
		}
		if w.TestName(t) != testName[string(t)] {
			x.Fail("test-name", "test %s is named %q instead of %q", t, w.TestName(t), testName[string(t)])
		}
		if w.TestName(t) < last {
			x.Fail("tests", "tests not in order of their names: %v", w.TestTags())
		}
		last = w.TestName(t)
		var got []string
		for _, lv := range w.ForTest(t).Levels() {
			for _, wg := range lv.Warnings() {
				for _, in := range wg.Instances() {
					got = append(got, fmt.Sprintf("%s %s %q %s %q %q", lv.Name(), wg.Name(), wg.Summary(), in.Name(), in.Extra(), canonical(in.Log())))
				}
			}
		}
		want := byTest[string(t)]
		sort.Strings(got)
		sort.Strings(want)
		if d := diff(got, want); d != "" {
			x.Fail("by-test", "test %s: %s", t, d)
		}
	}
	for _, src := range []string{"Bench", "Verify"} {
		n := 0
		for t := range byTest {
			if strings.HasPrefix(t, src+data.TagSeparator) {
				n++
			}
		}
		if got := w.TestTagsForSource(src); len(got) != n {
			x.Fail("tests-of-source", "%s has tests %v, want %d", src, got, n)
		}
	}
	// Warnings
	for _, wn := range allWarningNames() {
		wd := w.FindWarning(wn)
		var hs, ts []string
		for _, h := range wd.Handlers() {
			hs = append(hs, string(h))
		}
		for _, t := range wd.Tests() {
			ts = append(ts, string(t))
		}
		if !sameSet(hs, byWarn[wn][0]) || !sameSet(ts, byWarn[wn][1]) || wd.HasHandlers() != (len(hs) > 0) || wd.HasTests() != (len(ts) > 0) || wd.HasUsage() != (len(hs)+len(ts) > 0) {
			x.Fail("warning-usage", "%s: handlers %v tests %v, want %v", wn, hs, ts, byWarn[wn])
		}
	}
}

// canonical is the JSON object in a text, or the text if there is none.
func canonical(s string) string {
	var m map[string]any
	if json.Unmarshal([]byte(s), &m) != nil || m == nil {
		return strings.TrimSpace(s)
	}
	raw, _ := json.Marshal(m)
	return string(raw)
}

func sameSet(l []string, m map[string]bool) bool {
	if len(l) != len(m) {
		return false
	}
	for _, s := range l {
		if !m[s] {
			return false
		}
	}
	return true
}

var mgrProp = &zcore.Prop{ID: "C12", Gen: genMgrPlan, New: func() any { return &mgrPlan{} }, Run: runMgrPlan,
	Quick: 6000, Thorough: 400000, Length: 300, MaxPts: 2_000_000, NoSched: true,
	Rule: "random sequences of calls on warning managers of several handlers, reported, rendered with random benchmark results into files and parsed back through a reader that returns arbitrary pieces; map iteration order varies by seed",
	Real: []string{"infra/warning", "internal/misc", "internal/data"},
	Stub: []string{"report destination, standard output and input files", "default slog handler"}}
