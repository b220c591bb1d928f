package zweb

import (
	"flag"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ---------------------------------------------------------------------------- C13: reading results

// readPlan is a world and what reading it is like.
type readPlan struct {
	World  *world            `json:"world"`
	Faults [2]zsim.ReadFault `json:"faults"`
	Lost   [2][]int          `json:"lost"`  // lines that are missing
	Long   int               `json:"long"`  // length of an overlong line, 0: none
	At     int               `json:"at"`    // where
	Files  bool              `json:"files"` // through files named by flags
	Stdin  bool              `json:"stdin"` // benchmark results from standard input
	Chop   bool              `json:"chop"`  // no newline at the end
}

func genReadPlan(r *zcore.Rand) any {
	p := &readPlan{World: genWorld(r, r.P(0.3)), Files: r.P(0.5), Stdin: r.P(0.3), Chop: r.P(0.15)}
	bench, verify := p.World.files(plainSection, [2]string{plainByWarning(p.World, "# "), plainByWarning(p.World, "")})
	for i, t := range []string{bench, verify} {
		p.Faults[i] = genChunks(r)
		if r.P(0.35) {
			p.Faults[i] = genFault(r, len(t))
		}
	}
	switch k := r.N(20); {
	case k < 1:
		p.Faults[r.N(2)].Open = true
	case k < 6:
		for i, t := range []string{bench, verify} {
			n := strings.Count(t, "\n")
			for k := r.N(6); k > 0; k-- {
				p.Lost[i] = append(p.Lost[i], r.N(n))
			}
		}
	case k < 7:
		p.Long, p.At = zcore.Pick(r, 4000, 60000, 65530, 65536, 65537, 70000, 200000), r.N(1000)
	}
	return p
}

const (
	benchPath  = "/results/bench.txt"
	verifyPath = "/results/verify.txt"
)

// useFiles puts the results into simulated files and names them in the flags.
func useFiles(bench, verify string, faults [2]zsim.ReadFault, stdin bool) {
	zsim.FS = &zsim.Disk{Files: map[string][]byte{benchPath: []byte(bench), verifyPath: []byte(verify)},
		Faults: map[string]zsim.ReadFault{benchPath: faults[0], verifyPath: faults[1]}, Opens: make(map[string]int)}
	b := benchPath
	if stdin {
		b = ""
		zsim.Stdin = zsim.NewStream([]byte(bench), faults[0])
	}
	for k, v := range map[string]string{"bench": b, "verify": verifyPath} {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
}

// benchRecs is what the benchmark results say, by handler and test.
func benchRecs(h *wHandler, keep func(line string) bool) map[string]data.TestRecord {
	m := make(map[string]data.TestRecord)
	for i := range h.Bench {
		rec := &h.Bench[i]
		if keep != nil && !keep(rec.line(h.Tag)) {
			continue
		}
		ns, _ := strconv.ParseFloat(rec.Ns, 64)
		tr := data.TestRecord{Runs: rec.Runs, NanosPerOp: ns}
		if rec.Mb != "" {
			tr.MbPerSec, _ = strconv.ParseFloat(rec.Mb, 64)
			tr.GbPerSec, tr.TbPerSec = tr.MbPerSec/1000, tr.MbPerSec/1_000_000
		}
		if !rec.NoMem {
			tr.MemBytesPerOp, tr.MemAllocsPerOp = rec.Bytes, rec.Allocs
		}
		m["Bench"+data.TagSeparator+rec.Test] = tr
	}
	return m
}

func lostLines(text string, lost []int) string {
	if len(lost) == 0 {
		return text
	}
	gone := make(map[int]bool)
	for _, i := range lost {
		gone[i] = true
	}
	var b strings.Builder
	for i, l := range strings.SplitAfter(text, "\n") {
		if gone[i] {
			zsim.Fired("lost-line")
		} else {
			b.WriteString(l)
		}
	}
	return b.String()
}

func errorFaults() int {
	m := zsim.FaultMap()
	return m["read-error"] + m["open-error"]
}

var ptnFinding = regexp.MustCompile(`(?m)^(?:# )? {9}\S.*\n`)

func runReadPlan(pl any, x *zcore.Exec) {
	p := pl.(*readPlan)
	withDefault(&collector{min: 100}, func() {
		makeWarnings()
		bench, verify := p.World.files(plainSection, [2]string{plainByWarning(p.World, "# "), plainByWarning(p.World, "")})
		texts := [2]string{bench, verify}
		for i := range texts {
			texts[i] = lostLines(texts[i], p.Lost[i])
			if p.Chop {
				texts[i] = strings.TrimSuffix(texts[i], "\n")
			}
		}
		if p.Long > 0 {
			zsim.Fired("long-line")
			lines := strings.SplitAfter(texts[0], "\n")
			i := p.At % len(lines)
			texts[0] = strings.Join(lines[:i], "") + strings.Repeat("x", p.Long) + "\n" + strings.Join(lines[i:], "")
		}
		b, w := data.NewBenchmarks(), data.NewWarnings()
		s := x.Sim()
		before := errorFaults()
		var err error
		useFiles(texts[0], texts[1], p.Faults, p.Files && p.Stdin)
		s.Spawn("reader", func() {
			if p.Files {
				err = data.Setup(b, w)
			} else {
				err = parseAll(b, w, zsim.NewStream([]byte(texts[0]), p.Faults[0]), zsim.NewStream([]byte(texts[1]), p.Faults[1]))
			}
		})
		ok := x.RunSim(s)
		opens, closed := zsim.FS.Opens, zsim.FS.Closed
		_, _ = opens, closed
		zsim.FS = nil
		if !ok {
			return
		}
		failed := errorFaults() > before
		x.Note(fmt.Sprint(err))
		if err != nil {
			if failed {
				x.Count("errors", 1)
			} else if p.Long < 65000 {
				x.Fail("error", "reading failed without reason: %v", err)
			}
			return
		}
		if failed {
			x.Fail("silent", "an error while reading was not reported")
			return
		}
		cut := [2]bool{p.Faults[0].Truncate > 0 && p.Faults[0].Truncate <= len(texts[0]), p.Faults[1].Truncate > 0 && p.Faults[1].Truncate <= len(texts[1])}
		for i := range texts {
			if cut[i] {
				texts[i] = texts[i][:p.Faults[i].Truncate-1]
			}
		}
		lost := len(p.Lost[0])+len(p.Lost[1]) > 0
		checkBench(x, p.World, b, texts[0], lost)
		noteFindings(x, w)
		for _, h := range b.HandlerTags() {
			x.Note(fmt.Sprint(h, len(b.TestRecordsFor(h))))
		}
		switch {
		case !lost && !cut[0] && !cut[1]:
			checkWarnings(x, p.World, b, w)
		case !lost && p.Long == 0:
			checkCut(x, p.World, w, texts)
		}
		checkConsistent(x, w)
	})
}

// checkBench compares the parsed benchmarks with the lines that were there.
func checkBench(x *zcore.Exec, world *world, b *data.Benchmarks, text string, lost bool) {
	whole := make(map[string]bool)
	lines := strings.SplitAfter(text, "\n")
	part := "" // a last line without an end
	for i, l := range lines {
		whole[strings.TrimSuffix(l, "\n")] = true
		if i == len(lines)-1 && !strings.HasSuffix(l, "\n") {
			part = l
		}
	}
	tags := make(map[string]bool)
	tests := make(map[string]bool)
	n := 0
	for i := range world.Handlers {
		h := &world.Handlers[i]
		want := benchRecs(h, func(l string) bool { return whole[l] })
		got := b.TestRecordsFor(data.HandlerTag(h.Tag))
		for t, rec := range got {
			if rec != b.HandlerRecordsFor(t)[data.HandlerTag(h.Tag)] {
				x.Fail("bench-views", "%s %s: %+v by handler, %+v by test", h.Tag, t, rec, b.HandlerRecordsFor(t)[data.HandlerTag(h.Tag)])
			}
			if exp, ok := want[string(t)]; !ok {
				if all := benchRecs(h, nil); part == "" || all[string(t)] == (data.TestRecord{}) || !strings.HasPrefix(part, "Benchmark"+h.Tag+"/Benchmark"+strings.TrimPrefix(string(t), "Bench.")) {
					x.Fail("bench-extra", "%s %s: %+v", h.Tag, t, rec)
				}
			} else if exp != rec {
				x.Fail("bench-record", "%s %s is %+v instead of %+v", h.Tag, t, rec, exp)
			}
			tags[h.Tag] = true
			tests[string(t)] = true
			if !b.HasTest(t) || b.TestName(t) != camel(strings.TrimPrefix(string(t), "Bench.")) {
				x.Fail("bench-test", "%v %q %q", b.HasTest(t), t, b.TestName(t))
			}
		}
		for t, exp := range want {
			if _, ok := got[data.TestTag(t)]; !ok {
				x.Fail("bench-missing", "%s %s %+v", h.Tag, t, exp)
			}
			n++
		}
		if b.HasHandler(data.HandlerTag(h.Tag)) != (len(got) > 0) {
			x.Fail("bench-handler", "%s: %v", h.Tag, len(got) == 0)
		}
		if len(got) > 0 {
			name := h.Name
			if !whole[fmt.Sprintf("# Handler[%s]=\"%s\"", h.Tag, h.Name)] {
				name = camel(h.Tag)
			}
			if b.HandlerName(data.HandlerTag(h.Tag)) != name {
				x.Fail("bench-name", "%s is named %q instead of %q", h.Tag, b.HandlerName(data.HandlerTag(h.Tag)), name)
			}
			if b.HandlerLookup()[name] != data.HandlerTag(h.Tag) {
				x.Fail("bench-lookup", "%q is %q", name, b.HandlerLookup()[name])
			}
		}
	}
	x.Count("results", n)
	var hn, tn []string
	for _, h := range b.HandlerTags() {
		if !tags[string(h)] {
			x.Fail("bench-handler", "%q from nowhere", h)
		}
		hn = append(hn, b.HandlerName(h))
	}
	for _, t := range b.TestTags() {
		if !tests[string(t)] {
			x.Fail("bench-test", "%q from nowhere", t)
		}
		tn = append(tn, b.TestName(t))
	}
	if len(hn) != len(tags) || len(tn) != len(tests) || !sort.StringsAreSorted(hn) || !sort.StringsAreSorted(tn) {
		x.Fail("bench-lists", "handlers %q tests %q, want %d and %d", hn, tn, len(tags), len(tests))
	}
}

// checkCut: what was read before the end is there, but for the last finding whole.
func checkCut(x *zcore.Exec, world *world, w *data.Warnings, texts [2]string) {
	got := parsedFindings(w)
	for src, source := range []string{"Bench", "Verify"} {
		var mine []finding
		for _, f := range got {
			if f.Source == source {
				f.Handler, f.Summary = "", "" // may be cut as well
				mine = append(mine, f)
			}
		}
		full := make(map[string]int)
		for _, f := range world.findings() {
			f.Handler, f.Summary = "", ""
			full[f.String()]++
		}
		odd := 0
		for _, f := range mine {
			if k := f.String(); full[k] > 0 {
				full[k]--
			} else {
				odd++
				if odd > 1 {
					x.Fail("cut", "%s has %s", source, k)
				}
			}
		}
		n := len(ptnFinding.FindAllString(texts[src], -1))
		if i := strings.Index(texts[src], " Handlers by warning:"); i >= 0 {
			n = len(ptnFinding.FindAllString(texts[src][:i], -1))
		}
		if len(mine) < n || len(mine) > n+1 {
			x.Fail("cut", "%s has %d findings, %d were read", source, len(mine), n)
		}
		x.Count("cut", 1)
	}
}

// checkConsistent compares the views of the parsed warnings with each other.
func checkConsistent(x *zcore.Exec, w *data.Warnings) {
	levels := append([]warning.Level{0}, warning.LevelOrder...)
	byHandler := make(map[string]int)
	for _, h := range w.HandlerTags() {
		for _, l := range levels {
			if lv := w.ForHandler(h).Level(l); lv != nil {
				for _, wg := range lv.Warnings() {
					byHandler[string(h)+" "+wg.Name()] += len(wg.Instances())
				}
			}
		}
	}
	byTest := make(map[string]int)
	total := 0
	for _, t := range w.TestTags() {
		for _, l := range levels {
			if lv := w.ForTest(t).Level(l); lv != nil {
				for _, wg := range lv.Warnings() {
					byTest[wg.Name()] += len(wg.Instances())
				}
			}
		}
	}
	sum := make(map[string]int)
	for wn, wd := range w.ByWarning {
		for h, c := range wd.Count {
			total++
			if byHandler[string(h)+" "+wn] != int(c) {
				x.Fail("views", "%s of %s is counted %d times but listed %d times", wn, h, c, byHandler[string(h)+" "+wn])
			}
			sum[wn] += int(c)
		}
		if sum[wn] != byTest[wn] {
			x.Fail("views", "%s is counted %d times but listed %d times by test", wn, sum[wn], byTest[wn])
		}
	}
	for k, n := range byHandler {
		if n > 0 {
			total--
		}
		_ = k
	}
	if total != 0 {
		x.Fail("views", "%d counts without findings", total)
	}
}

var readProp = &zcore.Prop{ID: "C13", Gen: genReadPlan, New: func() any { return &readPlan{} }, Run: runReadPlan,
	Quick: 4000, Thorough: 300000, Length: 300, MaxPts: 4_000_000, NoSched: true,
	Rule: "random results of benchmarks and verification, written as the tools write them, read through files, standard input or readers that return arbitrary pieces, end early, lose lines, fail or cannot be opened; map iteration order varies by seed",
	Real: []string{"internal/data"},
	Stub: []string{"files, standard input", "default slog handler"}}
