package zweb

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/fatih/camelcase"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// world is what a benchmark run and a verification run found out about some handlers.
type world struct {
	Handlers []wHandler `json:"handlers"`
	Noise    int        `json:"noise"` // seed of lines that mean nothing
	ByWarn   bool       `json:"bywarn"`
}

type wHandler struct {
	Tag     string      `json:"tag"`
	Name    string      `json:"name"`
	NoDef   bool        `json:"nodef"` // no line that ties tag and name together
	Bench   []wRec      `json:"bench"`
	Warn    [2][]wIssue `json:"warn"` // from the benchmark, from verification
	Show    [2]bool     `json:"show"` // whether there is a "Warnings for" section
	Summary []string    `json:"summary"`
	Links   [][2]string `json:"links"`
}

type wRec struct {
	Test   string `json:"test"`
	Runs   uint64 `json:"runs"`
	Ns     string `json:"ns"`
	Mb     string `json:"mb"`
	Bytes  uint64 `json:"bytes"`
	Allocs uint64 `json:"allocs"`
	NoMem  bool   `json:"nomem"`
	CPUs   int    `json:"cpus"` // 0: no suffix
}

type wIssue struct {
	Warning string `json:"warning"`
	Fn      string `json:"fn"`
	Text    string `json:"text"`
	Record  string `json:"record"`
}

var handlerPool = [][2]string{{"SlogJSON", "slog/JSONHandler"}, {"MadkinsFlash", "madkins/flash"}, {"MadkinsSloggy", "madkins/sloggy"},
	{"MadkinsReplAttr", "madkins/replattr"}, {"PhsymZerolog", "phsym/zeroslog"}, {"PhusluSlog", "phuslu/slog"}, {"SamberLogrus", "samber/slog-logrus"}, {"SamberZap", "samber/slog-zap"},
	{"ChanchalZap", "chanchal/zaphandler"}, {"VeqrynDedupAppend", "veqryn/dedup/Append"}, {"VeqrynDedupIgnore", "veqryn/dedup/Ignore"},
	{"SnqkMeld", "snqk/meld"}, {"X", "x"}, {"Zz9", "a/b-c.d_e"}, {"UPPER", "UPPER"}}

var testPool = []string{"Attributes", "BigGroup", "Disabled", "KeyValues", "Logging", "Simple", "SimpleSource", "WithAttrsAttributes",
	"WithAttrsKeyValues", "WithAttrsSimple", "WithGroupAttributes", "WithGroupKeyValues", "X", "Test2Numbers", "HTTPServer"}

var fnPool = []string{"TestAttributes", "TestSlogTest", "TestKeyCase", "Benchmark_Simple", "BenchmarkBigGroup", "SimpleSource", "Test_Odd", "TestHTTPServer", "TestTestTwice", "TestX", "Unknown", "Benchmark1"}

// fresh warnings, made when an execution starts
var madeWarnings = []struct {
	level warning.Level
	name  string
}{{warning.LevelRequired, "ZRequired"}, {warning.LevelSuggested, "ASuggested"}, {warning.LevelAdmin, "Odd-Name_1"}, {warning.LevelImplied, "zlow"}}

// unknownWarnings are in results of another version of go-slog.
var unknownWarnings = []struct {
	level warning.Level
	name  string
}{{warning.LevelRequired, "Retired"}, {warning.LevelSuggested, "NotYet"}}

func makeWarnings() {
	for _, m := range madeWarnings {
		warning.NewWarning(m.level, m.name, "made up: "+m.name, "")
	}
}

func allWarningNames() []string {
	seen := make(map[string]bool)
	for _, l := range warning.LevelOrder {
		for _, w := range warning.WarningsForLevel(l) {
			if w != nil {
				seen[w.Name] = true
			}
		}
	}
	for _, m := range madeWarnings {
		seen[m.name] = true
	}
	var out []string
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func genText(r *zcore.Rand) string {
	switch r.N(8) {
	case 0, 1:
		return ""
	case 2:
		return zcore.Pick(r, "'info'", "`message`", "map[alpha:2 charlie:3]", "too many attributes: 4", "INFO+1 is not enabled", "a: b: c", "100% of it", "%d %s%", "x", "[WARN] y", "reflect/value.go:596",
			"missing key \"c\": a Handler should (/opt/go/src/testing/slogtest/slogtest.go:146)", "<b>bold</b>", "ünï 日本", "None", "10 [x] y", "Warnings for x:", "{\"a\":1}", "+plus", "a\ttab", "Required")
	case 3:
		return "first line\nsecond line\n  third"
	case 4:
		return "first\n\nafter a gap: x\n{\"json\":1}\nNone\nRequired\n3 [SourceKey] text\nWarnings for me:\n+plus"
	case 5:
		return "2025-02-16T01:41:19Z\n"
	case 6:
		return strings.Repeat("long text ", r.Range(1, 300))
	}
	return "should be 'A', not 'B'"
}

func genRecord(r *zcore.Rand) string {
	switch r.N(7) {
	case 0, 1, 2:
		return ""
	case 6:
		return zcore.Pick(r, `{"msg":"100% of %d and %s","rate":"5%"}`, `{"a":"%!d(MISSING)","b":"%%"}`, `{50%v x%}`, `{"a":"$1 ${b} \\1","b":"{{.C}}"}`)
	case 3:
		return `{"level":"info","msg":"This is a message","group":{"a":[1,2,{"b":null}]}}`
	case 4:
		return `{"time":"2025-02-16T01:41:19Z","msg":"m: x [y] + ^z^ <b>&amp;","n":` + strconv.Itoa(r.N(1000)) + `}` + zcore.Pick(r, "", "\n", "", "\n", "\r\n", "  ", " \n", "\n\n")
	}
	return `{"not json at all}` + strings.Repeat("x", r.N(200))
}

// recordOf is what can be read back of a record: neither line ends nor blanks around it.
func recordOf(rec string) string {
	return strings.Trim(strings.TrimSuffix(strings.TrimRight(rec, "\n"), "\r"), " ")
}

func genIssues(r *zcore.Rand, names []string, max int) []wIssue {
	var out []wIssue
	n := r.N(max)
	if r.P(0.01) {
		n = r.Range(30, 120)
	}
	for i := n; i > 0; i-- {
		out = append(out, wIssue{Warning: names[r.N(len(names))], Fn: fnPool[r.N(len(fnPool))], Text: genText(r), Record: genRecord(r)})
	}
	if len(out) > 1 && r.P(0.3) { // more of the same
		for i := r.N(6); i > 0; i-- {
			out = append(out, out[r.N(len(out))])
		}
	}
	return out
}

func genNs(r *zcore.Rand) string {
	switch r.N(5) {
	case 0:
		if r.P(0.15) {
			return zcore.Pick(r, "0", "1", "0.0000010", "0.2500", "1234567890123")
		}
		return strconv.Itoa(r.Range(1, 100000))
	case 1:
		return "0." + strconv.Itoa(r.Range(1000, 9999))
	case 2:
		return strconv.Itoa(r.Range(1, 99)) + "." + strconv.Itoa(r.Range(10, 99))
	case 3:
		return strconv.Itoa(r.Range(1_000_000, 2_000_000_000))
	}
	return strconv.Itoa(r.Range(100, 999)) + ".4"
}

func genWorld(r *zcore.Rand, rich bool) *world {
	w := &world{Noise: r.N(1 << 20), ByWarn: r.P(0.7)}
	names := allWarningNames()
	if r.P(0.2) {
		for _, m := range unknownWarnings {
			names = append(names, m.name)
		}
	}
	if r.P(0.5) { // a few, so that handlers share them
		k := r.Range(1, 5)
		for i := 0; i < k; i++ {
			j := i + r.N(len(names)-i)
			names[i], names[j] = names[j], names[i]
		}
		names = names[:k]
	}
	pool := append([][2]string(nil), handlerPool...)
	for i := len(pool) - 1; i > 0; i-- {
		j := r.N(i + 1)
		pool[i], pool[j] = pool[j], pool[i]
	}
	tests := append([]string(nil), testPool...)
	for i := len(tests) - 1; i > 0; i-- {
		j := r.N(i + 1)
		tests[i], tests[j] = tests[j], tests[i]
	}
	nt := r.Range(1, 6)
	if rich {
		nt = r.Range(2, 8)
	}
	cpus := zcore.Pick(r, 4, 4, 8, 1, 16)
	if cpus == 1 {
		cpus = 0 // go test adds no suffix then
	}
	n := r.Range(1, 4)
	if rich {
		n = r.Range(2, 6)
	}
	for i := 0; i < n; i++ {
		h := wHandler{Tag: pool[i][0], Name: pool[i][1], NoDef: r.P(0.05)}
		if r.P(0.9) {
			for _, t := range tests[:nt] {
				if r.P(0.1) {
					continue
				}
				rec := wRec{Test: t, Runs: uint64(r.Range(1, 100_000_000)), Ns: genNs(r), Bytes: uint64(r.N(10000)), Allocs: uint64(r.N(300)), NoMem: r.P(0.05), CPUs: cpus}
				if r.P(0.8) {
					rec.Mb = strconv.Itoa(r.Range(0, 100000)) + "." + strconv.Itoa(r.Range(10, 99))
				}
				if r.P(0.2) {
					rec.Bytes, rec.Allocs = 0, 0
				}
				if r.P(0.1) {
					rec.Runs = zcore.Pick(r, uint64(1), 1, 2, 1_000_000_000)
				}
				if r.P(0.03) {
					rec.Bytes = zcore.Pick(r, uint64(1), 1<<31, 1<<32+1, 999_999_999_999)
				}
				h.Bench = append(h.Bench, rec)
			}
		}
		for s := 0; s < 2; s++ {
			h.Show[s] = r.P(0.9)
			if h.Show[s] && r.P(0.75) {
				h.Warn[s] = genIssues(r, names, 6)
			}
		}
		if r.P(0.6) {
			for j := r.Range(1, 4); j > 0; j-- {
				h.Summary = append(h.Summary, zcore.Pick(r, "A *handler* that ^logs^.", "* list item", "x", "See [link](http://example.com/a?b=c&d=e).", "Line: with --> arrow", "trailing words"))
			}
			if r.P(0.3) {
				h.Summary = append(h.Summary, "", "Next paragraph.")
			}
			for j := r.N(3); j > 0; j-- {
				h.Links = append(h.Links, [2]string{fmt.Sprintf("link %d", j), fmt.Sprintf("https://example.com/%d?x=-->y", j)})
			}
		}
		w.Handlers = append(w.Handlers, h)
	}
	return w
}

// benchLine is a result as go test prints it.
func (rec *wRec) line(tag string) string {
	suffix := ""
	if rec.CPUs > 0 {
		suffix = "-" + strconv.Itoa(rec.CPUs)
	}
	l := fmt.Sprintf("Benchmark%s/Benchmark%s%s         \t%8d\t%10s ns/op", tag, rec.Test, suffix, rec.Runs, rec.Ns)
	if rec.Mb != "" {
		l += fmt.Sprintf("\t%7s MB/s", rec.Mb)
	}
	if !rec.NoMem {
		l += fmt.Sprintf("\t%8d B/op\t%8d allocs/op", rec.Bytes, rec.Allocs)
	}
	return l
}

var noiseLines = []string{"goos: linux", "goarch: amd64", "cpu: AMD EPYC 7763 64-Core Processor                ", "PASS", "ok  \tgithub.com/madkins23/go-slog/bench\t12.3s", "",
	"2025/02/16 01:36:56 WARN Verification Error err=\"Implied [SourceCaller] Source data: x\"", "pkg: github.com/madkins23/go-slog/bench", "=== RUN   TestVerifyX/TestY",
	"    --- PASS: TestVerifyX/TestY (0.00s)", "Benchmark", "BenchmarkSlogJSON", "BenchmarkX/BenchmarkY-4 \t", "--- FAIL: BenchmarkZ", "{\"level\":\"info\"}"}

// sections of warnings, as the real manager writes them or as the harness does.
type sectionWriter func(source int, h *wHandler) string

func plainSection(source int, h *wHandler) string {
	prefix := [2]string{"# ", ""}[source]
	var b strings.Builder
	fmt.Fprintf(&b, "%s\n%sWarnings for %s:\n", prefix, prefix, h.Name)
	exp := expectSection(h.Warn[source])
	if len(exp) == 0 {
		fmt.Fprintf(&b, "%s  None\n", prefix)
		return b.String()
	}
	last := warning.Level(0)
	for _, g := range exp {
		if g.level != last {
			fmt.Fprintf(&b, "%s  %s\n", prefix, g.level.String())
			last = g.level
		}
		fmt.Fprintf(&b, "%s  %4d [%s] %s\n", prefix, len(g.items), g.name, g.summary)
		for _, it := range g.items {
			text := strings.ReplaceAll(it.Text, "\n", "\n"+prefix+"           +")
			if text != "" {
				fmt.Fprintf(&b, "%s         %s: %s\n", prefix, it.Fn, text)
			} else {
				fmt.Fprintf(&b, "%s         %s\n", prefix, it.Fn)
			}
			if it.Record != "" {
				fmt.Fprintf(&b, "%s           %s\n", prefix, strings.TrimRight(it.Record, "\n"))
			}
		}
	}
	return b.String()
}

// group is all there is to one warning in one section.
type group struct {
	level   warning.Level
	name    string
	summary string
	items   []wIssue
}

var levelRank = map[warning.Level]int{warning.LevelRequired: 0, warning.LevelImplied: 1, warning.LevelSuggested: 2, warning.LevelAdmin: 3}

func lookupWarning(name string) (warning.Level, string) {
	if w := warning.ByName(name); w != nil {
		return w.Level, w.Summary
	}
	for _, m := range madeWarnings {
		if m.name == name {
			return m.level, "made up: " + name
		}
	}
	for _, m := range unknownWarnings {
		if m.name == name {
			return m.level, "unknown: " + name
		}
	}
	return warning.LevelAdmin, ""
}

// expectSection groups issues by warning: levels from most to least important, then by name.
func expectSection(issues []wIssue) []*group {
	by := make(map[string]*group)
	var out []*group
	for _, is := range issues {
		g := by[is.Warning]
		if g == nil {
			g = &group{name: is.Warning}
			g.level, g.summary = lookupWarning(is.Warning)
			by[is.Warning] = g
			out = append(out, g)
		}
		g.items = append(g.items, is)
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := levelRank[out[i].level], levelRank[out[j].level]; a != b {
			return a < b
		}
		return out[i].name < out[j].name
	})
	return out
}

// files renders the world as the two output files.
func (w *world) files(section sectionWriter, byWarning [2]string) (bench, verify string) {
	r := zcore.NewRand(uint64(w.Noise))
	noise := func(b *strings.Builder) {
		for r.P(0.3) {
			b.WriteString(noiseLines[r.N(len(noiseLines))] + "\n")
		}
	}
	var b strings.Builder
	for i := range w.Handlers {
		h := &w.Handlers[i]
		if len(h.Bench) == 0 {
			continue
		}
		if !h.NoDef {
			fmt.Fprintf(&b, "# Handler[%s]=\"%s\"\n", h.Tag, h.Name)
		}
		noise(&b)
		for k := range h.Bench {
			b.WriteString(h.Bench[k].line(h.Tag) + "\n")
			if r.P(0.1) {
				noise(&b)
			}
		}
	}
	b.WriteString("PASS\n")
	for i := range w.Handlers {
		if h := &w.Handlers[i]; h.Show[0] {
			b.WriteString(section(0, h))
		}
	}
	b.WriteString(byWarning[0])
	b.WriteString("ok  \tgithub.com/madkins23/go-slog/bench\t1217.2s\n")
	var v strings.Builder
	for i := range w.Handlers {
		h := &w.Handlers[i]
		v.WriteString("=== RUN   TestVerify" + h.Tag + "\n")
		if len(h.Summary) > 0 {
			fmt.Fprintf(&v, ":[ %s\n", h.Name)
			for _, l := range h.Summary {
				fmt.Fprintf(&v, ":: %s\n", l)
			}
			for _, l := range h.Links {
				fmt.Fprintf(&v, ":> %s --> %s\n", l[0], l[1])
			}
			v.WriteString(":]\n")
		}
		noise(&v)
	}
	v.WriteString("PASS\n")
	for i := range w.Handlers {
		if h := &w.Handlers[i]; h.Show[1] {
			v.WriteString(section(1, h))
		}
	}
	v.WriteString(byWarning[1])
	return b.String(), v.String()
}

func plainByWarning(w *world, prefix string) string {
	if !w.ByWarn {
		return ""
	}
	return fmt.Sprintf("%s\n%s Handlers by warning:\n%s  Required\n%s    [Resolver] x\n%s      slog/JSONHandler\n", prefix, prefix, prefix, prefix, prefix)
}

// camel splits a tag into words, as the documentation of the parser says (Tag.Name).
func camel(s string) string { return strings.Join(camelcase.Split(s), " ") }

// ---------------------------------------------------------------------------- expectations

// finding is one warning instance as the parsed data should have it.
type finding struct {
	Handler, Level, Warning, Summary, Source, Tag, Extra, Line string
}

func (f finding) String() string { raw, _ := json.Marshal(f); return string(raw) }

func trimFn(fn string) string {
	for {
		old := fn
		for _, p := range []string{"Benchmark_", "Benchmark", "Test_", "Test"} {
			fn = strings.TrimPrefix(fn, p)
		}
		if fn == old {
			return fn
		}
	}
}

func extraOf(text string) string {
	if text == "" {
		return ""
	}
	lines := strings.Split(text, "\n")
	for i := range lines {
		lines[i] = strings.TrimRight(lines[i], " \t")
	}
	lines[0] = strings.TrimLeft(lines[0], " \t")
	return strings.Join(lines, "\n")
}

// defs maps creator names to benchmark tags.
func (w *world) defs() map[string]string {
	m := make(map[string]string)
	for i := range w.Handlers {
		h := &w.Handlers[i]
		if len(h.Bench) > 0 {
			if h.NoDef {
				m[camel(h.Tag)] = h.Tag
			} else {
				m[h.Name] = h.Tag
			}
		}
	}
	return m
}

// warnTag is the tag under which the warnings of a handler are filed.
func (w *world) warnTag(h *wHandler) string {
	if tag, ok := w.defs()[h.Name]; ok {
		return tag
	}
	return h.Name
}

func (w *world) findings() []finding {
	var out []finding
	for i := range w.Handlers {
		h := &w.Handlers[i]
		for s, source := range []string{"Bench", "Verify"} {
			if !h.Show[s] {
				continue
			}
			for _, g := range expectSection(h.Warn[s]) {
				for _, it := range g.items {
					out = append(out, finding{w.warnTag(h), g.level.String(), g.name, g.summary, source, trimFn(it.Fn), extraOf(it.Text), recordOf(it.Record)})
				}
			}
		}
	}
	return out
}

// parsedFindings reads the same off the parsed data.
func parsedFindings(warns *data.Warnings) []finding {
	var out []finding
	for _, tag := range warns.HandlerTags() {
		for _, lv := range warns.ForHandler(tag).Levels() {
			for _, wg := range lv.Warnings() {
				for _, in := range wg.Instances() {
					out = append(out, finding{string(tag), lv.Name(), wg.Name(), wg.Summary(), in.Source(), in.Tag(), in.Extra(), in.Line()})
				}
			}
		}
	}
	return out
}

func sorted[T fmt.Stringer](l []T) []string {
	out := make([]string, len(l))
	for i := range l {
		out[i] = l[i].String()
	}
	sort.Strings(out)
	return out
}

// diff names the first difference of two sorted lists, "" if there is none.
func diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(want) || i < len(got) && got[i] < want[i]:
			return "unexpected " + got[i]
		case i >= len(got) || got[i] > want[i]:
			return "missing " + want[i]
		}
	}
	return ""
}

// longLine is a line of noise, possibly longer than a line may be.
type longLine struct {
	Len int `json:"len"`
	At  int `json:"at"`
	In  int `json:"in"`
}

func genLong(r *zcore.Rand) (l longLine) {
	if r.P(0.06) {
		l = longLine{zcore.Pick(r, 4000, 60000, 65530, 65536, 65537, 70000, 200000), r.N(1000), r.N(3) / 2}
	}
	return
}

// over says that reading may fail because of it.
func (l longLine) over() bool { return l.Len >= 65000 }

func (l longLine) put(texts *[2]string) {
	if l.Len == 0 {
		return
	}
	zsim.Fired("long-line")
	i := 0
	lines := strings.SplitAfter(texts[l.In], "\n")
	if l.In == 0 { // within a section of verification it would be part of a text
		i = l.At % len(lines)
	}
	texts[l.In] = strings.Join(lines[:i], "") + strings.Repeat("x", l.Len) + "\n" + strings.Join(lines[i:], "")
}

// genFault makes a reading fault that loses nothing: other sizes of reads only.
func genChunks(r *zcore.Rand) zsim.ReadFault {
	f := zsim.ReadFault{}
	if r.P(0.8) {
		for i := r.Range(1, 6); i > 0; i-- {
			f.Chunks = append(f.Chunks, zcore.Pick(r, 1, 2, 3, 7, 31, 100, 511, 4096))
		}
	}
	f.EOFData, f.Zero = r.P(0.4), r.P(0.3)
	return f
}

// genFault may also lose something.
func genFault(r *zcore.Rand, size int) zsim.ReadFault {
	f := genChunks(r)
	switch r.N(3) {
	case 0:
		f.ErrAt = 1 + r.N(size+1)
	case 1:
		f.Truncate = 1 + r.N(size+1)
	}
	return f
}
