package zweb

import (
	"fmt"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ---------------------------------------------------------------------------- C14: concurrent queries

type query struct {
	Q string `json:"q"`
	H int    `json:"h"`
	T int    `json:"t"`
	W string `json:"w"`
	S string `json:"s"`
}

type queryPlan struct {
	World   *world    `json:"world"`
	Clients [][]query `json:"clients"`
	Before  bool      `json:"before"` // somebody asked before
	Each    bool      `json:"each"`   // data parsed anew for each query, not only for each plan
}

var queryKinds = []string{"b-handlers", "b-tests", "b-lookup", "b-names", "b-records", "w-handlers", "w-tests", "w-source", "w-find", "w-find", "w-count", "w-handler", "w-handler", "w-test", "w-test",
	"w-levels", "w-summary", "w-links", "w-has", "tag-name", "tag-name", "description", "level-summary", "markdown", "markdown", "registry"}

var markdownTexts = []string{"plain", "# Heading\n\ntext", "# Heading\n\nother\n\n# Heading\n\n## Heading", "* a\n* b\n", "^code^ and `code`", "a ^b^", "# ^H^ ^", "x^2^ `y^`", "[link](http://x.y/z?a=b&c=d)", "", "a\n\nb\n\n    indented\n",
	"| a | b |\n|---|---|\n| 1 | 2 |\n", "1. one\n2. two\n", "> quoted\n\n---\n\n```go\ncode()\n```\n", "<b>raw</b> & text\n[^1]\n\n[^1]: note\n"}

func genQueryPlan(r *zcore.Rand) any {
	p := &queryPlan{World: genWorld(r, r.P(0.3)), Before: r.P(0.2), Each: r.P(0.1)}
	names := append(allWarningNames(), "Nonsense", "")
	var used []string
	for _, h := range p.World.Handlers {
		for _, l := range h.Warn {
			for _, is := range l {
				used = append(used, is.Warning)
			}
		}
	}
	kinds := queryKinds
	if r.P(0.6) { // the same few at the same time
		kinds = nil
		for i := r.Range(1, 3); i > 0; i-- {
			kinds = append(kinds, queryKinds[r.N(len(queryKinds))])
		}
	}
	for i := r.Range(2, 4); i > 0; i-- {
		var c []query
		n := r.Range(1, 5)
		if r.P(0.02) {
			n = r.Range(20, 50)
		}
		for j := n; j > 0; j-- {
			q := query{Q: kinds[r.N(len(kinds))], H: r.N(len(p.World.Handlers) + 1), T: r.N(len(testPool) + len(fnPool)), W: names[r.N(len(names))], S: zcore.Pick(r, "Bench", "Verify")}
			if q.Q == "markdown" && r.P(0.5) { // the same with carets and without
				q.T = r.Range(4, 7)
			}
			if len(used) > 0 && r.P(0.7) {
				q.W = used[r.N(len(used))]
			}
			c = append(c, q)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

func levelsText(l *data.Levels) string {
	if l == nil {
		return "nil"
	}
	var b strings.Builder
	for _, lv := range l.Levels() {
		fmt.Fprintf(&b, "%s %d\n", lv.Name(), lv.Count())
		for _, w := range lv.Warnings() {
			n := -1
			if w.HasDescription() {
				n = len(w.Description())
			}
			fmt.Fprintf(&b, " %s %q %d\n", w.Name(), w.Summary(), n)
			for _, in := range w.Instances() {
				fmt.Fprintf(&b, "  %s %q %q %q %s %s %v %v\n", in.Name(), in.Extra(), in.ExtraHTML(), in.Line(), in.Source(), in.Tag(), in.HasLog(), in.HasSource())
			}
		}
	}
	return b.String()
}

func (q *query) run(p *queryPlan, b *data.Benchmarks, w *data.Warnings) string {
	ht := data.HandlerTag("Nobody")
	if q.H < len(p.World.Handlers) {
		ht = data.HandlerTag(p.World.warnTag(&p.World.Handlers[q.H]))
	}
	var tt data.TestTag
	if q.T < len(testPool) {
		tt = data.TestTag("Bench." + testPool[q.T])
	} else {
		tt = data.TestTag(q.S + "." + trimFn(fnPool[(q.T-len(testPool))%len(fnPool)]))
	}
	switch q.Q {
	case "b-handlers":
		return fmt.Sprint(b.HandlerTags())
	case "b-tests":
		return fmt.Sprint(b.TestTags())
	case "b-lookup":
		return fmt.Sprint(b.HandlerLookup())
	case "b-names":
		return b.HandlerName(ht) + b.TestName(tt)
	case "b-records":
		return fmt.Sprint(b.TestRecordsFor(ht), b.HandlerRecordsFor(tt), b.HasHandler(ht), b.HasTest(tt))
	case "w-handlers":
		return fmt.Sprint(w.HandlerTags())
	case "w-tests":
		return fmt.Sprint(w.TestTags())
	case "w-source":
		return fmt.Sprint(w.TestTagsForSource(q.S))
	case "w-find":
		wd := w.FindWarning(q.W)
		return fmt.Sprint(wd.Handlers(), wd.Tests(), wd.HasUsage(), wd.HasHandlers(), wd.HasTests(), wd.Count)
	case "w-count":
		if wn := warning.ByName(q.W); wn != nil {
			return fmt.Sprint(w.HandlerWarningCount(ht, wn))
		}
		return ""
	case "w-handler":
		return levelsText(w.ForHandler(ht))
	case "w-test":
		return levelsText(w.ForTest(tt))
	case "w-levels":
		if l := w.ForHandler(ht); l != nil {
			var s string
			for _, lv := range warning.LevelOrder {
				s += fmt.Sprint(l.LevelCount(lv), l.Level(lv) != nil, " ")
			}
			return s
		}
		return ""
	case "w-summary":
		return fmt.Sprint(w.HasHandlerSummary(ht), w.HandlerSummaryHTML(ht))
	case "w-links":
		return fmt.Sprint(w.HasHandlerLinks(ht), w.HandlerLinks(ht))
	case "w-has":
		return fmt.Sprint(w.HasHandler(ht), w.HasTest(tt), w.HandlerName(ht), w.TestName(tt))
	case "tag-name":
		return ht.Name() + "|" + tt.Name()
	case "description":
		if wn := warning.ByName(q.W); wn != nil {
			return fmt.Sprint(wn.HasDescription(), wn.Description())
		}
		return ""
	case "level-summary":
		return string(warning.LevelOrder[q.H%4].Summary())
	case "markdown":
		return string(markdown.TemplateHTML(markdownTexts[q.T%len(markdownTexts)], q.H%2 == 0))
	case "registry":
		return fmt.Sprint(listNames(warning.LevelOrder[q.H%4].Warnings()))
	}
	return ""
}

// disorder fails if tags are not in the order of their names.
func disorder[T ~string](x *zcore.Exec, what string, tags []T, name func(T) string) {
	for i := 1; i < len(tags); i++ {
		if a, b := name(tags[i-1]), name(tags[i]); a > b || a == b && tags[i-1] >= tags[i] {
			x.Fail("order", "%s: %q (%s) before %q (%s)", what, a, tags[i-1], b, tags[i])
		}
	}
}

// disorderIn fails if the levels, warnings or instances of a handler or a test are out of order.
func disorderIn(x *zcore.Exec, what string, l *data.Levels) {
	for i, lv := range l.Levels() {
		if i > 0 && l.Levels()[i-1].Level < lv.Level {
			x.Fail("order", "%s: level %s before %s", what, l.Levels()[i-1].Name(), lv.Name())
		}
		for j, w := range lv.Warnings() {
			if j > 0 && lv.Warnings()[j-1].Name() >= w.Name() {
				x.Fail("order", "%s: warning %q before %q", what, lv.Warnings()[j-1].Name(), w.Name())
			}
			for k, in := range w.Instances() {
				if k > 0 && w.Instances()[k-1].Name() > in.Name() {
					x.Fail("order", "%s: %s: %q before %q", what, w.Name(), w.Instances()[k-1].Name(), in.Name())
				}
			}
		}
	}
}

func runQueryPlan(pl any, x *zcore.Exec) {
	p := pl.(*queryPlan)
	withDefault(&collector{min: 100}, func() {
		makeWarnings()
		bench, verify := p.World.files(plainSection, [2]string{plainByWarning(p.World, "# "), plainByWarning(p.World, "")})
		parse := func() (*data.Benchmarks, *data.Warnings) {
			b, w := data.NewBenchmarks(), data.NewWarnings()
			if err := parseAll(b, w, strings.NewReader(bench), strings.NewReader(verify)); err != nil {
				x.Fail("parse", "%v", err)
			}
			return b, w
		}
		b, w := parse()
		if p.Before {
			for _, c := range p.Clients {
				for i := range c {
					c[i].run(p, b, w)
				}
			}
		}
		s := x.Sim()
		got := make([][]string, len(p.Clients))
		for i := range p.Clients {
			i := i
			s.Spawn("client", func() {
				for k := range p.Clients[i] {
					got[i] = append(got[i], p.Clients[i][k].run(p, b, w))
				}
			})
		}
		if !x.RunSim(s) {
			return
		}
		// Alone, on data parsed anew, the answers are the same.
		zsim.RestoreGlobals()
		makeWarnings()
		b, w = parse()
		for i := len(p.Clients) - 1; i >= 0; i-- {
			c := p.Clients[i]
			for k := range c {
				if p.Each {
					zsim.RestoreGlobals()
					makeWarnings()
					b, w = parse()
				}
				want := c[k].run(p, b, w)
				x.Note(got[i][k])
				if got[i][k] != want {
					x.Fail("answer", "%+v: %s", c[k], firstDiff(got[i][k], want))
				}
				x.Count("queries", 1)
			}
		}
		// Lists come in the order of the names in them, whenever they were made.
		b, w = parse()
		disorder(x, "handlers of benchmarks", b.HandlerTags(), b.HandlerName)
		disorder(x, "benchmarks", b.TestTags(), b.TestName)
		disorder(x, "handlers of warnings", w.HandlerTags(), w.HandlerName)
		disorder(x, "tests", w.TestTags(), w.TestName)
		for _, n := range append(allWarningNames(), "Nonsense") {
			wd := w.FindWarning(n)
			disorder(x, "handlers for "+n, wd.Handlers(), data.HandlerTag.Name)
			disorder(x, "tests for "+n, wd.Tests(), data.TestTag.Name)
		}
		for _, h := range w.HandlerTags() {
			disorderIn(x, "handler "+string(h), w.ForHandler(h))
		}
		for _, t := range w.TestTags() {
			disorderIn(x, "test "+string(t), w.ForTest(t))
		}
		// Texts are rendered as when nothing was rendered before.
		for i, c := range p.Clients {
			for k := range c {
				if c[k].Q == "markdown" {
					zsim.RestoreGlobals()
					if want := c[k].run(p, nil, nil); got[i][k] != want {
						x.Fail("answer", "%+v: %s", c[k], firstDiff(got[i][k], want))
					}
				}
			}
		}
	})
}

var queryProp = &zcore.Prop{ID: "C14", Gen: genQueryPlan, New: func() any { return &queryPlan{} }, Run: runQueryPlan,
	Quick: 3000, Thorough: 300000, Length: 500, MaxPts: 2_000_000,
	Rule: "random parsed results, and plans of concurrent queries of all kinds (often several of the same kind at once); every answer is compared with the one a lone query gets on data parsed anew with package variables reset",
	Real: []string{"internal/data", "infra/warning", "internal/markdown", "gomarkdown"},
	Stub: []string{"goroutine scheduler", "default slog handler"}}
