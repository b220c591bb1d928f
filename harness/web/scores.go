package zweb

import (
	"fmt"
	"html/template"
	"math"
	"sort"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ---------------------------------------------------------------------------- C18: scores

// scorePlan is a world, a score keeper of our own besides those of go-slog, and clients that ask for scores.
type scorePlan struct {
	World   *world   `json:"world"`
	Weights [3]uint  `json:"weights"` // nanoseconds, bytes, allocations
	Levels  [4]uint  `json:"levels"`
	Include []string `json:"include"`
	Exclude []string `json:"exclude"`
	Filter  int      `json:"filter"` // 0 none, 1 include, 2 exclude
	Names   []string `json:"names"`
	Nested  bool     `json:"nested"`
	Clients [][]int  `json:"clients"`
}

func genScorePlan(r *zcore.Rand) any {
	p := &scorePlan{World: genWorld(r, r.P(0.6)), Filter: r.N(3), Nested: r.P(0.5)}
	if r.P(0.05) {
		for i := range p.World.Handlers {
			p.World.Handlers[i].Show = [2]bool{}
		}
	}
	for i := range p.Weights {
		p.Weights[i] = uint(zcore.Pick(r, 0, 1, 1, 2, 3, 7))
	}
	for i := range p.Levels {
		p.Levels[i] = uint(zcore.Pick(r, 0, 1, 1, 2, 4, 8))
	}
	if r.P(0.4) { // few different figures
		for i := range p.World.Handlers {
			h := &p.World.Handlers[i]
			for k := range h.Bench {
				h.Bench[k].Ns = zcore.Pick(r, "100", "100", "250.5")
				h.Bench[k].Bytes, h.Bench[k].Allocs = uint64(r.N(2)*16), uint64(r.N(3))
			}
		}
	}
	if r.P(0.1) { // nothing to choose between them
		for i := range p.World.Handlers {
			h := &p.World.Handlers[i]
			for k := range h.Bench {
				h.Bench[k].Ns, h.Bench[k].Bytes, h.Bench[k].Allocs, h.Bench[k].NoMem = "100", 8, 1, false
			}
		}
	}
	pickTests := func() []string {
		var out []string
		for i := r.Range(1, 4); i > 0; i-- {
			out = append(out, testPool[r.N(len(testPool))])
		}
		return out
	}
	if r.P(0.3) {
		p.Include = pickTests()
	}
	if r.P(0.3) {
		p.Exclude = pickTests()
	}
	for i := r.N(4); i > 0; i-- {
		p.Names = append(p.Names, handlerPool[r.N(len(handlerPool))][1])
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var c []int
		for k := r.Range(1, 4); k > 0; k-- {
			c = append(c, r.N(len(scoreQueries)))
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

var scoreTypes = []score.Type{score.Default, score.ByData, score.Original, score.ByTest}

// scoreQueries are what the pages of the server ask of a keeper.
var scoreQueries = []func(k *score.Keeper, b *data.Benchmarks) string{
	func(k *score.Keeper, b *data.Benchmarks) string { return scoreTable(k, k.X(), b) },
	func(k *score.Keeper, b *data.Benchmarks) string { return scoreTable(k, k.Y(), b) },
	func(k *score.Keeper, b *data.Benchmarks) string { return scoreDetail(k, k.X(), b) },
	func(k *score.Keeper, b *data.Benchmarks) string { return scoreDetail(k, k.Y(), b) },
	func(k *score.Keeper, b *data.Benchmarks) string { return scoreDetail(k, k.Y(), b) },
	func(k *score.Keeper, b *data.Benchmarks) string { return string(k.Overview()) },
	func(k *score.Keeper, b *data.Benchmarks) string { return fmt.Sprint(score.Keepers(), k.HandlerTags()) },
	func(k *score.Keeper, b *data.Benchmarks) string {
		var s string
		for _, w := range []string{"X", "Y"} {
			a := k.Axes()[w]
			s += a.Name() + string(a.Summary()) + string(a.Documentation())
			for _, e := range a.Exhibits() {
				s += string(e.HTML(e))
			}
		}
		return s
	},
	func(k *score.Keeper, b *data.Benchmarks) string {
		return string(k.Summary()) + k.Name() + string(k.Tag()) + string(k.ChartTitle()) + string(k.ChartCaption())
	},
}

func bits(v score.Value) string {
	return fmt.Sprintf("%x(%v)", math.Float64bits(float64(v)), float64(v))
}

func scoreTable(k *score.Keeper, a score.Axis, b *data.Benchmarks) string {
	var s strings.Builder
	for _, h := range k.HandlerTags() {
		fmt.Fprintf(&s, "%s %s", h, bits(a.ScoreFor(h)))
		for _, t := range scoreTypes {
			fmt.Fprintf(&s, " %s", bits(a.ScoreForType(h, t)))
		}
		s.WriteByte('\n')
	}
	return s.String()
}

func scoreDetail(k *score.Keeper, a score.Axis, b *data.Benchmarks) string {
	var s strings.Builder
	for _, t := range b.TestTags() {
		fmt.Fprintf(&s, "%s %v\n", t, a.HasTest(t))
	}
	for _, h := range k.HandlerTags() {
		s.WriteString(string(h))
		switch ax := a.(type) {
		case *axis.Benchmarks:
			for _, t := range b.TestTags() {
				if ax.HasTest(t) {
					fmt.Fprintf(&s, " %s", bits(ax.ScoreForTest(h, t)))
				}
			}
		case *axis.Warnings:
			for _, l := range warning.LevelOrder {
				fmt.Fprintf(&s, " %s %s", bits(ax.ScoreForLevel(h, l)), bits(ax.CountForLevel(h, l)))
			}
			for _, t := range b.TestTags() {
				fmt.Fprintf(&s, " %s", bits(ax.ScoreForTest(h, t)))
			}
		}
		s.WriteByte('\n')
	}
	return s.String()
}

// ownKeeper is a score keeper as the plan has it.
func (p *scorePlan) ownKeeper() *score.Keeper {
	lw := make(map[warning.Level]uint)
	for i, l := range warning.LevelOrder {
		if p.Levels[i%4] > 0 {
			lw[l] = p.Levels[i%4]
		}
	}
	bw := make(map[bench.Weight]uint)
	for i, w := range []bench.Weight{bench.Nanoseconds, bench.AllocBytes, bench.Allocations} {
		if p.Weights[i] > 0 {
			bw[w] = p.Weights[i]
		}
	}
	tags := func(l []string) (out []data.TestTag) {
		for _, t := range l {
			out = append(out, data.TestTag("Bench."+t))
		}
		return
	}
	var items []any
	var group []any
	for i, n := range p.Names {
		if p.Nested && i%2 == 0 {
			group = append(group, n)
		} else {
			items = append(items, n)
		}
	}
	if group != nil {
		items = append(items, score.NewFilterGroup(group...))
	}
	var f score.Filter
	switch p.Filter {
	case 1:
		f = score.NewIncludeFilter(items...)
	case 2:
		f = score.NewExcludeFilter(items...)
	}
	return score.NewKeeper("Own", axis.NewWarnings(lw, template.HTML("x")),
		axis.NewBenchmarks(bw, template.HTML("y"), &axis.BenchOptions{Name: "Mine", IncludeTests: tags(p.Include), ExcludeTests: tags(p.Exclude)}), "doc", nil, f)
}

// axisModel says how an axis must judge; the weights of go-slog's own keepers are part of their documentation.
type axisModel struct {
	bench   bool
	weights [3]uint // nanoseconds, bytes, allocations
	levels  [4]uint
	tests   func(test string) bool
}

type keeperModel struct {
	tag  score.KeeperTag
	keep func(name string) bool
	x, y axisModel
}

func inList(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

var dedupNames = []string{"snqk/meld", "veqryn/dedup/Append", "veqryn/dedup/Ignore", "veqryn/dedup/Increment", "veqryn/dedup/Overwrite"}

func keeperModels(p *scorePlan) []keeperModel {
	anyTest := func(string) bool { return true }
	basic := func(n string) bool { return n != "madkins/replattr" && !inList(dedupNames, n) }
	wm := axisModel{levels: [4]uint{8, 4, 2, 1}}
	bm := axisModel{bench: true, weights: [3]uint{3, 2, 1}, tests: anyTest}
	large, small := bm, bm
	large.tests = func(t string) bool { return t == "BigGroup" || t == "Logging" }
	small.tests = func(t string) bool { return t != "BigGroup" && t != "Logging" }
	all := []keeperModel{
		{"Default", basic, wm, bm},
		{"Simple", basic, axisModel{levels: [4]uint{2, 1, 0, 0}}, axisModel{bench: true, weights: [3]uint{2, 0, 1}, tests: anyTest}},
		{"Size", basic, large, small},
		{"+Dedup", func(n string) bool { return n == "slog/JSONHandler" || inList(dedupNames, n) }, wm, bm},
		{"+ReplAttr", func(n string) bool { return n == "madkins/flash" || n == "madkins/replattr" }, wm, bm},
	}
	if p != nil {
		all = append(all, keeperModel{"Own", func(n string) bool {
			return p.Filter != 1 && p.Filter != 2 || inList(p.Names, n) == (p.Filter == 1)
		}, axisModel{levels: p.Levels}, axisModel{bench: true, weights: p.Weights, tests: func(t string) bool {
			return (p.Include == nil || inList(p.Include, t)) && !inList(p.Exclude, t)
		}}})
	}
	return all
}

// hName is the name of a handler that the filters go by.
func (w *world) hName(h *wHandler) string {
	for n, t := range w.defs() {
		if t == h.Tag {
			return n
		}
	}
	return h.Name
}

type mean struct{ sum, n float64 }

func (m *mean) add(v float64, w uint) { m.sum += v * float64(w); m.n += float64(w) }
func (m *mean) ok() bool              { return m.n > 0 }
func (m *mean) avg() float64          { return m.sum / m.n }

func items(rec data.TestRecord) [3]float64 {
	return [3]float64{rec.NanosPerOp, float64(rec.MemBytesPerOp), float64(rec.MemAllocsPerOp)}
}

// judged is what the model says about one handler on one axis; what is absent is not determined.
type judged struct {
	types  map[score.Type]float64
	tests  map[string]float64
	levels [4]float64
	counts [4]float64
}

// judge computes the scores of all handlers from the world.
func (w *world) judge(m axisModel) map[string]*judged {
	out := make(map[string]*judged)
	if m.bench {
		type span struct{ lo, hi float64 }
		spans := make(map[string]*[3]span)
		for i := range w.Handlers {
			for t, rec := range benchRecs(&w.Handlers[i], nil) {
				v := items(rec)
				s := spans[t]
				if s == nil {
					s = &[3]span{}
					for j := range s {
						s[j] = span{v[j], v[j]}
					}
					spans[t] = s
				}
				for j := range s {
					s[j].lo, s[j].hi = math.Min(s[j].lo, v[j]), math.Max(s[j].hi, v[j])
				}
			}
		}
		for i := range w.Handlers {
			h := &w.Handlers[i]
			j := &judged{types: make(map[score.Type]float64), tests: make(map[string]float64)}
			out[h.Tag] = j
			var over mean
			var subs [3]mean
			ran := false
			recs := benchRecs(h, nil)
			var names []string
			for t := range recs {
				names = append(names, t)
			}
			sort.Strings(names)
			for _, t := range names {
				if !m.tests(strings.TrimPrefix(t, "Bench.")) {
					continue
				}
				ran = true
				var one mean
				for k, v := range items(recs[t]) {
					if s := spans[t][k]; s.hi > s.lo {
						f := 100 * (s.hi - v) / (s.hi - s.lo)
						one.add(f, m.weights[k])
						subs[k].add(f, 1)
					}
				}
				if one.ok() {
					j.tests[t] = one.avg()
					over.add(one.avg(), 1)
				}
			}
			var data mean
			for k := range subs {
				if subs[k].ok() {
					data.add(subs[k].avg(), m.weights[k])
				}
			}
			switch {
			case over.ok():
				j.types[score.ByTest], j.types[score.Original] = over.avg(), over.avg()
				j.types[score.ByData] = data.avg()
				j.types[score.Default] = (over.avg() + data.avg()) / 2
			case ran: // nothing to choose between the handlers
				for _, t := range scoreTypes {
					j.types[t] = 100
				}
			}
		}
		return out
	}
	seen := [4]map[string]bool{}
	has := make(map[string]*[4]map[string]bool)
	for i := range w.Handlers {
		h := &w.Handlers[i]
		mine := has[w.warnTag(h)]
		if mine == nil {
			mine = &[4]map[string]bool{}
			has[w.warnTag(h)] = mine
		}
		for s := range h.Warn {
			if !h.Show[s] {
				continue
			}
			for _, g := range expectSection(h.Warn[s]) {
				k := levelRank[g.level]
				if seen[k] == nil {
					seen[k] = make(map[string]bool)
				}
				if mine[k] == nil {
					mine[k] = make(map[string]bool)
				}
				seen[k][g.name], mine[k][g.name] = true, true
			}
		}
	}
	for i := range w.Handlers { // without any warnings
		if h := &w.Handlers[i]; len(h.Bench) > 0 && has[h.Tag] == nil {
			has[h.Tag] = &[4]map[string]bool{}
		}
	}
	for tag, mine := range has {
		j := &judged{types: make(map[score.Type]float64)}
		out[tag] = j
		var by mean
		worst, bad := 0.0, 0.0
		for k := range mine {
			n, all := float64(len(mine[k])), float64(len(seen[k]))
			j.counts[k], j.levels[k] = n, 100
			if all > 0 {
				j.levels[k] = 100 * (all - n) / all
			}
			by.add(j.levels[k], m.levels[k])
			worst += all * float64(m.levels[k])
			bad += n * float64(m.levels[k])
		}
		if by.ok() {
			j.types[score.ByData], j.types[score.Default] = by.avg(), by.avg()
		}
		j.types[score.Original] = 100
		if worst > 0 {
			j.types[score.Original] = 100 * (worst - bad) / worst
		}
	}
	return out
}

func near(a score.Value, b float64) bool {
	return math.Abs(float64(a)-b) <= 1e-7*math.Max(1, math.Abs(b))
}

// checkScores compares what an axis says with the model.
func checkScores(x *zcore.Exec, w *world, k *score.Keeper, which string, a score.Axis, m axisModel, b *data.Benchmarks) {
	js := w.judge(m)
	if m.bench {
		for _, t := range b.TestTags() {
			want := false
			for _, j := range js {
				if _, ok := j.tests[string(t)]; ok {
					want = true
				}
			}
			if a.HasTest(t) != want {
				x.Fail("has-test", "%s %s: HasTest(%s) is %v", k.Tag(), which, t, !want)
			}
		}
	}
	for _, h := range k.HandlerTags() {
		j := js[string(h)]
		if j == nil {
			x.Fail("handler", "%s %s: unknown handler %s", k.Tag(), which, h)
			continue
		}
		for _, t := range scoreTypes {
			want, ok := j.types[t]
			got := a.ScoreForType(h, t)
			if ok && !near(got, want) {
				x.Fail("score", "%s %s: %s %s is %v, should be %v", k.Tag(), which, h, t, got, want)
			}
			if ok && !(got >= 0 && got <= 100.0000001) {
				x.Fail("range", "%s %s: %s %s is %v", k.Tag(), which, h, t, got)
			}
			x.Count("scores", 1)
		}
		if want, ok := j.types[score.Default]; ok && !near(a.ScoreFor(h), want) {
			x.Fail("score", "%s %s: %s is %v, should be %v", k.Tag(), which, h, a.ScoreFor(h), want)
		}
		switch ax := a.(type) {
		case *axis.Benchmarks:
			for t, want := range j.tests {
				if got := ax.ScoreForTest(h, data.TestTag(t)); !near(got, want) {
					x.Fail("test-score", "%s %s: %s %s is %v, should be %v", k.Tag(), which, h, t, got, want)
				}
			}
		case *axis.Warnings:
			for i, l := range warning.LevelOrder {
				if got := ax.CountForLevel(h, l); !near(got, j.counts[i]) {
					x.Fail("count", "%s %s: %s %s is %v, should be %v", k.Tag(), which, h, l, got, j.counts[i])
				}
				if got := ax.ScoreForLevel(h, l); !near(got, j.levels[i]) {
					x.Fail("level-score", "%s %s: %s %s is %v, should be %v", k.Tag(), which, h, l, got, j.levels[i])
				}
			}
		}
	}
}

func runScorePlan(pl any, x *zcore.Exec) {
	p := pl.(*scorePlan)
	withDefault(&collector{min: 100}, func() {
		bf, vf := p.World.files(plainSection, [2]string{})
		type state struct {
			b    *data.Benchmarks
			keep []*score.Keeper
		}
		setup := func() (st state, ok bool) {
			zsim.RestoreGlobals()
			makeWarnings()
			s := x.Sim()
			s.Spawn("setup", func() {
				b, w := data.NewBenchmarks(), data.NewWarnings()
				if err := parseAll(b, w, strings.NewReader(bf), strings.NewReader(vf)); err != nil {
					x.Fail("parse", "%v", err)
					return
				}
				if err := score.AddKeeper(p.ownKeeper()); err != nil {
					x.Fail("setup", "%v", err)
				}
				if err := scoring.Setup(b, w); err != nil {
					x.Fail("setup", "%v", err)
					return
				}
				st.b = b
				for _, m := range keeperModels(p) {
					st.keep = append(st.keep, score.GetKeeper(m.tag))
				}
				ok = true
			})
			if !x.RunSim(s) {
				ok = false
			}
			return
		}
		st, ok := setup()
		if !ok {
			return
		}
		s := x.Sim()
		got := make([][][]string, len(p.Clients))
		for i := range p.Clients {
			i := i
			s.Spawn("client", func() {
				for _, q := range p.Clients[i] {
					var l []string
					for _, k := range st.keep {
						l = append(l, scoreQueries[q%len(scoreQueries)](k, st.b))
					}
					got[i] = append(got[i], l)
				}
			})
		}
		if !x.RunSim(s) {
			return
		}
		for i, m := range keeperModels(p) {
			k := st.keep[i]
			if k == nil {
				x.Fail("keeper", "no %s", m.tag)
				return
			}
			var want []string
			for h := range p.World.Handlers {
				if wh := &p.World.Handlers[h]; len(wh.Bench) > 0 && m.keep(p.World.hName(wh)) {
					want = append(want, wh.Tag)
				}
			}
			var have []string
			for _, h := range k.HandlerTags() {
				have = append(have, string(h))
			}
			sort.Strings(want)
			sort.Strings(have)
			if d := diff(have, want); d != "" {
				x.Fail("handlers", "%s: %s", m.tag, d)
			}
			checkScores(x, p.World, k, "X", k.X(), m.x, st.b)
			checkScores(x, p.World, k, "Y", k.Y(), m.y, st.b)
		}
		// The same once more: nothing but the data counts.
		again, ok := setup()
		if !ok {
			return
		}
		for i, c := range p.Clients {
			for n, q := range c {
				for j, k := range again.keep {
					want := scoreQueries[q%len(scoreQueries)](k, again.b)
					x.Note(want)
					if got[i][n][j] != want {
						x.Fail("differs", "%s: %s", k.Tag(), firstDiff(got[i][n][j], want))
					}
				}
			}
		}
	})
}

var scoreProp = &zcore.Prop{ID: "C18", Gen: genScorePlan, New: func() any { return &scorePlan{} }, Run: runScorePlan,
	Quick: 1500, Thorough: 100000, Length: 2000, MaxPts: 3_000_000,
	Rule: "random results (often with ties, single handlers, handlers without warnings), a score keeper with random weights, tests and filters besides those of go-slog, and concurrent clients; scores are compared with a model, and with a second computation under another map order",
	Real: []string{"internal/scoring", "internal/data", "infra/warning", "internal/markdown", "html/template"},
	Stub: []string{"goroutine scheduler", "default slog handler"}}
