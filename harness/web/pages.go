package zweb

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/net/html"
	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/score"
)

// ---------------------------------------------------------------------------- documents

type badFn func(class, format string, a ...any)

func attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

// find returns all elements below n for which ok holds, in order, not looking into those it found if flat.
func find(n *html.Node, flat bool, ok func(*html.Node) bool) (out []*html.Node) {
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		hit := k.Type == html.ElementNode && ok(k)
		if hit {
			out = append(out, k)
		}
		if !hit || !flat {
			out = append(out, find(k, flat, ok)...)
		}
	}
	return
}

func elem(names ...string) func(*html.Node) bool {
	return func(n *html.Node) bool { return inList(names, n.Data) }
}

func classed(name, class string) func(*html.Node) bool {
	return func(n *html.Node) bool { return n.Data == name && inList(strings.Fields(attr(n, "class")), class) }
}

func withID(id string) func(*html.Node) bool {
	return func(n *html.Node) bool { return attr(n, "id") == id }
}

func rawText(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var b strings.Builder
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		b.WriteString(rawText(k))
	}
	return b.String()
}

// words is the text below a node, white space made regular.
func shown(n *html.Node) string { return strings.Join(strings.Fields(rawText(n)), " ") }

// rows returns the texts of the cells of a table, row by row.
func rows(table *html.Node) (out [][]string) {
	for _, tr := range find(table, true, elem("tr")) {
		var row []string
		for _, td := range find(tr, true, elem("td", "th")) {
			row = append(row, shown(td))
		}
		out = append(out, row)
	}
	return
}

// ---------------------------------------------------------------------------- what the pages should say

// link is an entry of a list of pages.
type link struct{ text, href string }

// site is what the server knows, as a model of it.
type site struct {
	p        *srvPlan
	w        *world
	pr       *message.Printer
	handlers map[string]string // benchmark tag to name
	tests    map[string]string // benchmark test tag to name
	verify   map[string]string // verification test tag to name
	warned   map[string]string // tag to name of handlers with warnings, even if none
	warnTest map[string]string // tag to name of tests with warnings
	findings []finding
	docs     []string
}

func (p *srvPlan) site() *site {
	s := &site{p: p, w: p.World, handlers: make(map[string]string), tests: make(map[string]string), verify: make(map[string]string),
		warned: make(map[string]string), warnTest: make(map[string]string), findings: p.World.findings()}
	tag := language.AmericanEnglish
	for _, l := range p.Langs {
		if t, err := language.Parse(l); err == nil {
			tag = t
			break
		}
	}
	s.pr = message.NewPrinter(tag)
	defs := p.World.defs()
	for name, t := range defs {
		s.handlers[t] = name
	}
	for i := range p.World.Handlers {
		h := &p.World.Handlers[i]
		for t := range benchRecs(h, nil) {
			s.tests[t] = camel(strings.TrimPrefix(t, "Bench."))
		}
		if h.Show[0] || h.Show[1] {
			name := h.Name
			if _, known := defs[h.Name]; !known {
				name = capitals(h.Name)
			}
			s.warned[p.World.warnTag(h)] = name
		}
	}
	for _, f := range s.findings {
		s.warnTest[f.Source+"."+f.Tag] = camel(f.Tag)
		if f.Source == "Verify" {
			s.verify["Verify."+f.Tag] = camel(f.Tag)
		}
	}
	for i := range p.Docs {
		if t, ok := p.Docs[i].content(); ok && t != "" {
			s.docs = append(s.docs, docNames[i])
		}
	}
	return s
}

var keeperOrder = []string{"Default", "Simple", "Size", "+Dedup", "+ReplAttr"}

// links lists entries in the order of their names.
func links(m map[string]string, prefix string) (out []link) {
	for t, n := range m {
		out = append(out, link{n, prefix + t + ".html"})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].text != out[j].text {
			return out[i].text < out[j].text
		}
		return out[i].href < out[j].href
	})
	return
}

// lists are the five ways into the server.
func (s *site) lists() map[string][]link {
	m := map[string][]link{
		"Handlers":     links(s.handlers, "/go-slog/handler/"),
		"Bench Tests":  links(s.tests, "/go-slog/test/"),
		"Verify Tests": links(s.verify, "/go-slog/test/"),
	}
	for _, k := range keeperOrder {
		m["Scoring"] = append(m["Scoring"], link{k, "/go-slog/scores/" + k + "/summary.html"})
	}
	m["Other"] = []link{{"Warnings", "/go-slog/warnings.html"}, {"Guts", "/go-slog/guts.html"}}
	for _, d := range s.docs {
		m["Other"] = append(m["Other"], link{d, "/go-slog/text/" + d + "/display.html"})
	}
	return m
}

// number is how a page may show a figure.
func (s *site) number(got string, v float64, digits int) bool {
	e := 1e-7 * math.Max(1, math.Abs(v))
	for _, d := range []float64{0, -e, e} {
		if plain(got) == plain(s.pr.Sprintf("%.*f", digits, v+d)) || v+d < 0 && got == s.pr.Sprintf("%.*f", digits, 0.0) {
			return true
		}
	}
	return false
}

func (s *site) keeper(tag string) *keeperModel {
	for _, k := range keeperModels(nil) {
		if string(k.tag) == tag {
			return &k
		}
	}
	return nil
}

// ---------------------------------------------------------------------------- pages

func (p *srvPlan) judgePage(u *url.URL, c *conn, d *html.Node, bad badFn) {
	s := p.site()
	title := ""
	for _, h := range find(d, true, classed("h2", "home")) {
		title = shown(h)
	}
	if title == "Server Error" && u.Path != "/go-slog/error.html" {
		var msg []string
		for _, li := range find(d, true, classed("li", "fixed")) {
			msg = append(msg, shown(li))
		}
		bad("error-page", "%q", msg)
		return
	}
	parts := strings.Split(strings.TrimPrefix(u.Path, "/go-slog/"), "/")
	is := func(want string) {
		if title != want {
			bad("title", "the page is titled %q instead of %q", title, want)
		}
	}
	sel := make(map[string]string) // what must be selected
	switch {
	case u.Path == "/go-slog/" || u.Path == "/go-slog/index.html":
		is("Home")
		sel["Other"] = "Home"
		s.home(u, d, bad)
	case parts[0] == "test" && len(parts) == 2:
		tag := strings.TrimSuffix(parts[1], ".html")
		if n, ok := s.tests[tag]; ok {
			is("Test " + n)
			sel["Bench Tests"] = n
		} else if n, ok := s.warnTest[tag]; ok {
			is("Test " + n)
		}
		if n, ok := s.verify[tag]; ok {
			sel["Verify Tests"] = n
		}
		s.test(tag, d, bad)
	case parts[0] == "handler" && len(parts) == 2:
		tag := strings.TrimSuffix(parts[1], ".html")
		if n, ok := s.handlers[tag]; ok {
			is("Handler " + n)
			sel["Handlers"] = n
		}
		s.handler(tag, d, bad)
	case parts[0] == "scores" && len(parts) == 3:
		is("Handler Scores")
		k := s.keeper(parts[1])
		if k == nil {
			k = s.keeper("Default")
		}
		sel["Scoring"] = string(k.tag)
		s.scores(k, d, bad)
	case parts[0] == "warnings.html":
		is("Warnings")
		sel["Other"] = "Warnings"
		s.warnings(d, bad)
	case parts[0] == "guts.html":
		is("Data and Warnings")
		sel["Other"] = "Guts"
		s.guts(d, bad)
	case parts[0] == "text" && len(parts) == 3:
		if inList(s.docs, parts[1]) {
			is("Text File " + parts[1])
			sel["Other"] = parts[1]
		}
		s.text(parts[1], d, bad)
	default:
		return
	}
	s.header(d, sel, bad)
}

// sameLinks compares lists of pages; entries of the same name may come in any order.
func sameLinks(got, want []link) string {
	var g, w []string
	for i := range got {
		if i > 0 && got[i-1].text > got[i].text {
			for k := range want {
				if k > 0 && want[k-1] == got[i] && want[k] == got[i-1] {
					return fmt.Sprintf("%q comes before %q", got[i-1].text, got[i].text)
				}
			}
		}
		g = append(g, fmt.Sprintf("%s -> %s", got[i].text, got[i].href))
	}
	for i := range want {
		w = append(w, fmt.Sprintf("%s -> %s", want[i].text, want[i].href))
	}
	sort.Strings(g)
	sort.Strings(w)
	return diff(g, w)
}

// header checks the choices at the top of every page.
func (s *site) header(d *html.Node, sel map[string]string, bad badFn) {
	lists := s.lists()
	tables := find(d, true, classed("table", "choice"))
	if len(tables) != 1 {
		bad("header", "%d tables of choices", len(tables))
		return
	}
	label := ""
	seen := 0
	for _, td := range find(tables[0], true, elem("td")) {
		forms := find(td, true, elem("select"))
		if len(forms) == 0 {
			label = shown(td)
			continue
		}
		seen++
		var prefix, suffix string
		switch label {
		case "Handlers":
			prefix, suffix = "/go-slog/handler/", ".html"
		case "Bench Tests", "Verify Tests":
			prefix, suffix = "/go-slog/test/", ".html"
		case "Scoring":
			prefix, suffix = "/go-slog/scores/", "/summary.html"
		case "Other":
			prefix = "/go-slog/"
		}
		var got []link
		var chosen []string
		for i, o := range find(forms[0], true, elem("option")) {
			disabled, selected := false, false
			for _, a := range o.Attr {
				disabled = disabled || a.Key == "disabled"
				selected = selected || a.Key == "selected"
			}
			if i == 0 || disabled {
				continue
			}
			got = append(got, link{shown(o), prefix + attr(o, "value") + suffix})
			if selected {
				chosen = append(chosen, shown(o))
			}
		}
		want := append([]link(nil), lists[label]...)
		if label == "Other" {
			want = append([]link{{"Home", "/go-slog/index.html"}}, want...)
		}
		if e := sameLinks(got, want); e != "" {
			bad("header", "%s: %s", label, e)
		}
		var exp []string
		if v, ok := sel[label]; ok {
			exp = []string{v}
		}
		if fmt.Sprint(chosen) != fmt.Sprint(exp) {
			bad("selected", "%s: %q is selected instead of %q", label, chosen, exp)
		}
	}
	if seen != 5 {
		bad("header", "%d choices", seen)
	}
}

func (s *site) home(u *url.URL, d *html.Node, bad badFn) {
	lists := s.lists()
	seen := 0
	for _, f := range find(d, true, elem("fieldset")) {
		name := ""
		for _, l := range find(f, true, elem("legend")) {
			name = shown(l)
		}
		seen++
		var got []link
		for _, a := range find(f, true, elem("a")) {
			h := attr(a, "href")
			if r, err := u.Parse(h); err == nil {
				h = r.Path
			}
			got = append(got, link{shown(a), h})
		}
		if e := sameLinks(got, lists[name]); e != "" {
			bad("home", "%s: %s", name, e)
		}
	}
	if seen != 5 {
		bad("home", "%d lists", seen)
	}
}

func (s *site) record(name string, r data.TestRecord) string {
	return strings.Join([]string{name, s.pr.Sprintf("%d", r.Runs), s.pr.Sprintf("%.2f", r.NanosPerOp),
		s.pr.Sprintf("%d", r.MemAllocsPerOp), s.pr.Sprintf("%d", r.MemBytesPerOp), s.pr.Sprintf("%.2f", r.MbPerSec)}, "|")
}

// records compares the first table of benchmark data, if there has to be one.
func (s *site) records(d *html.Node, want []string, bad badFn) {
	tables := find(d, true, classed("table", "data"))
	if len(tables) == 0 {
		if len(want) > 0 {
			bad("records", "no table of %d results", len(want))
		}
		return
	}
	var got []string
	for i, r := range rows(tables[0]) {
		if i > 0 {
			got = append(got, strings.Join(r, "|"))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := range got { // some numbers are separated by spaces that don't break
		got[i] = strings.Join(strings.Fields(got[i]), " ")
	}
	for i := range want {
		want[i] = strings.Join(strings.Fields(want[i]), " ")
	}
	if e := diff(got, want); e != "" {
		bad("records", "%s", e)
	}
}

func (s *site) test(tag string, d *html.Node, bad badFn) {
	var want []string
	for i := range s.w.Handlers {
		h := &s.w.Handlers[i]
		if r, ok := benchRecs(h, nil)[tag]; ok {
			want = append(want, s.record(s.handlers[h.Tag], r))
		}
	}
	s.records(d, want, bad)
	var fs []finding
	for _, f := range s.findings {
		if f.Source+"."+f.Tag == tag {
			fs = append(fs, f)
		}
	}
	s.instances(d, fs, func(f finding) string { return camel(f.Handler) }, bad)
}

func (s *site) handler(tag string, d *html.Node, bad badFn) {
	var want []string
	for i := range s.w.Handlers {
		h := &s.w.Handlers[i]
		if h.Tag != tag {
			continue
		}
		for t, r := range benchRecs(h, nil) {
			want = append(want, s.record(s.tests[t], r))
		}
		// The summary of a handler without benchmarks isn't kept.
		if _, known := s.w.defs()[h.Name]; known && s.w.warnTag(h) == tag && (h.Show[0] || h.Show[1]) {
			s.about(h, d, bad)
		}
	}
	s.records(d, want, bad)
	var fs []finding
	for _, f := range s.findings {
		if f.Handler == tag {
			fs = append(fs, f)
		}
	}
	s.instances(d, fs, func(f finding) string { return f.Source + ": " + camel(f.Tag) }, bad)
}

// about is what verification said about a handler in general.
func (s *site) about(h *wHandler, d *html.Node, bad badFn) {
	if strings.Join(h.Summary, "") == "" {
		return
	}
	trs := find(d, false, classed("tr", "summary"))
	if len(trs) != 1 {
		bad("summary", "%d summaries", len(trs))
		return
	}
	var got, want []link
	for i, td := range find(trs[0], true, elem("td")) {
		if i != 1 {
			continue
		}
		for _, a := range find(td, true, elem("a")) {
			h := attr(a, "href")
			if un, err := url.PathUnescape(h); err == nil {
				h = un
			}
			got = append(got, link{shown(a), h})
		}
	}
	seen := make(map[string]int)
	for _, l := range h.Links {
		if i, ok := seen[l[0]]; ok {
			want[i].href = l[1]
			continue
		}
		seen[l[0]] = len(want)
		want = append(want, link{l[0], l[1]})
	}
	if e := sameLinks(got, want); e != "" {
		bad("links", "%s", e)
	}
}

// plain makes the text of a warning and what a page shows of it comparable.
func plain(text string) string { return strings.Join(strings.Fields(text), " ") }

// instances compares the tables of warnings.
func (s *site) instances(d *html.Node, fs []finding, name func(finding) string, bad badFn) {
	var got []string
	level, warn := "", ""
	for _, t := range find(d, true, classed("table", "warning")) {
		for _, tr := range find(t, true, elem("tr")) {
			for _, td := range find(tr, true, elem("td")) {
				switch attr(td, "class") {
				case "level":
					level = shown(td)
				case "warning":
					warn = shown(td)
				}
			}
			if attr(tr, "class") != "instance" {
				continue
			}
			cur := ""
			for _, in := range find(tr, false, elem("tr")) {
				for _, td := range find(in, true, elem("td")) {
					switch attr(td, "class") {
					case "name":
						cur = shown(td)
					case "extra":
						cur += "|" + shown(td)
					case "logLine":
						log := ""
						for _, pre := range find(td, true, elem("pre")) {
							log = rawText(pre)
						}
						if c := canonical(log); c != "" {
							log = c
						}
						got = append(got, fmt.Sprintf("%s|%s|%s|%q", level, warn, cur, log))
					}
				}
			}
		}
	}
	var want []string
	for _, f := range fs {
		log := f.Line
		if c := canonical(log); c != "" {
			log = c
		}
		want = append(want, fmt.Sprintf("%s|%s|%s|%s|%q", f.Level, f.Warning, plain(name(f)), plain(shownExtra(f.Extra)), log))
	}
	sort.Strings(got)
	sort.Strings(want)
	if e := diff(got, want); e != "" {
		bad("instances", "%s: %q, want %q", e, got, want)
	}
}

// shownExtra: a reference to testing/slogtest becomes a link.
func shownExtra(text string) string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if strings.Contains(l, "(/opt/go/src/testing/slogtest/slogtest.go:146)") {
			a, b, _ := strings.Cut(l, ":")
			b, _, _ = strings.Cut(b, "(")
			lines[i] = a + strings.TrimRight(b, " ")
		}
	}
	return strings.Join(lines, "\n")
}

func (s *site) scores(k *keeperModel, d *html.Node, bad badFn) {
	js := [2]map[string]*judged{s.w.judge(k.x), s.w.judge(k.y)}
	models := [2]axisModel{k.x, k.y}
	kept := make(map[string]string) // name to tag
	for tag, name := range s.handlers {
		if k.keep(name) {
			kept[name] = tag
		}
	}
	table := func(id string, check func(tag string, cells []string)) [][]string {
		ts := find(d, true, withID(id))
		if len(ts) == 0 {
			ts = find(d, false, withID(id))
		}
		if len(ts) != 1 {
			bad("scores", "%d tables %s", len(ts), id)
			return nil
		}
		var names []string
		rs := rows(ts[0])
		for i, r := range rs {
			if i == 0 {
				continue
			}
			tag, ok := kept[r[0]]
			if !ok {
				bad("scores", "%s: handler %q", id, r[0])
				return nil
			}
			names = append(names, r[0])
			check(tag, r[1:])
		}
		if len(names) != len(kept) || !sort.StringsAreSorted(names) {
			bad("scores", "%s: handlers %q, want %d", id, names, len(kept))
		}
		return rs
	}
	table("score-table-scores", func(tag string, cells []string) {
		if len(cells) != 2 {
			bad("scores", "%d scores", len(cells))
			return
		}
		for i := range js {
			if j := js[i][tag]; j != nil {
				if v, ok := j.types[score.Default]; ok && !s.number(cells[i], v, 2) {
					bad("score", "%s is %s on axis %s, should be %v", tag, cells[i], "XY"[i:i+1], v)
				}
			}
		}
	})
	for i, which := range []string{"X", "Y"} {
		if !models[i].bench {
			for _, id := range []string{"details", "counts"} {
				id := "warn-table-" + which + "-" + id
				table(id, func(tag string, cells []string) {
					j := js[i][tag]
					if j == nil || len(cells) < 4 {
						bad("scores", "%s: %s has %d cells", id, tag, len(cells))
						return
					}
					for l := 0; l < 4; l++ {
						v, digits := j.levels[l], 2
						if strings.HasSuffix(id, "counts") {
							v, digits = j.counts[l], 0
						}
						if !s.number(cells[l], v, digits) {
							bad("score", "%s: %s is %s for level %d, should be %v", id, tag, cells[l], l, v)
						}
					}
				})
			}
			continue
		}
		var cols []string // tests that count
		for t := range s.tests {
			if models[i].tests(strings.TrimPrefix(t, "Bench.")) {
				cols = append(cols, t)
			}
		}
		sort.Slice(cols, func(a, b int) bool { return s.tests[cols[a]] < s.tests[cols[b]] })
		for _, kind := range []string{"details", "micros", "allocs", "bytes"} {
			id := "score-table-" + which + "-" + kind
			var heads []string
			ts := find(d, false, withID(id))
			if len(ts) == 1 {
				if rs := rows(ts[0]); len(rs) > 0 {
					for _, c := range rs[0][1:] {
						heads = append(heads, c)
					}
				}
			}
			// A test in which no two handlers differ has no scores.
			at := make(map[string]int)
			for _, t := range cols {
				for n, hd := range heads {
					if hd == s.tests[t] {
						at[t] = n
					}
				}
				counts := false
				for _, j := range js[i] {
					if _, ok := j.tests[t]; ok {
						counts = true
					}
				}
				if _, ok := at[t]; ok != counts {
					bad("scores", "%s: test %s is there: %v", id, t, ok)
				}
			}
			table(id, func(tag string, cells []string) {
				var recs map[string]data.TestRecord
				for n := range s.w.Handlers {
					if s.w.Handlers[n].Tag == tag {
						recs = benchRecs(&s.w.Handlers[n], nil)
					}
				}
				for t, n := range at {
					r, ran := recs[t]
					if !ran {
						continue
					}
					if n >= len(cells) {
						bad("scores", "%s: %s has %d cells", id, tag, len(cells))
						return
					}
					ok, want := true, ""
					switch kind {
					case "details":
						if v, has := js[i][tag].tests[t]; has {
							ok, want = s.number(cells[n], v, 2), fmt.Sprint(v)
						}
					case "micros":
						ok, want = s.number(cells[n], r.NanosPerOp/1000, 3), fmt.Sprint(r.NanosPerOp/1000)
					case "allocs":
						want = s.pr.Sprintf("%d", r.MemAllocsPerOp)
						ok = plain(cells[n]) == plain(want)
					case "bytes":
						want = s.pr.Sprintf("%d", r.MemBytesPerOp)
						ok = plain(cells[n]) == plain(want)
					}
					if !ok {
						bad("score", "%s: %s %s is %s, should be %s", id, tag, t, cells[n], want)
					}
				}
			})
		}
	}
}

func (s *site) warnings(d *html.Node, bad badFn) {
	var byWarn = make(map[string][2]map[string]bool)
	counts := make(map[string]int)
	for _, f := range s.findings {
		if byWarn[f.Warning][0] == nil {
			byWarn[f.Warning] = [2]map[string]bool{{}, {}}
		}
		byWarn[f.Warning][0][camel(f.Handler)] = true
		byWarn[f.Warning][1][camel(f.Tag)] = true
		counts[s.warned[f.Handler]+"|"+f.Warning]++
	}
	// Each warning once, in the order of levels.
	var order []string
	for _, l := range warning.LevelOrder {
		for _, w := range warning.WarningsForLevel(l) {
			order = append(order, w.Name)
		}
	}
	var got []string
	for _, t := range find(d, true, classed("table", "warning")) {
		for _, td := range find(t, false, classed("td", "warning")) {
			got = append(got, shown(td))
		}
		for _, tr := range find(t, false, elem("tr")) {
			id := attr(tr, "id")
			if !strings.HasSuffix(id, "-who") {
				continue
			}
			name := strings.TrimSuffix(id, "-who")
			for i, list := range find(tr, false, classed("div", "list")) {
				var l []string
				for n := list.FirstChild; n != nil; n = n.NextSibling {
					if t := shown(n); t != "" {
						l = append(l, t)
					}
				}
				if i < 2 && !sameNames(l, byWarn[name][i]) {
					bad("usage", "%s: %q, want %v", name, l, byWarn[name][i])
				}
			}
			delete(byWarn, name)
		}
	}
	for n := range byWarn {
		if inList(order, n) {
			bad("usage", "none for %s", n)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(order) {
		bad("warnings", "%v, want %v", got, order)
	}
	tables := find(d, true, classed("table", "handler-v-warning"))
	if len(tables) == 0 {
		tables = find(d, false, classed("table", "handler-v-warning"))
	}
	if len(tables) != 1 {
		bad("matrix", "%d tables", len(tables))
		return
	}
	var heads []string
	for i, r := range rows(tables[0]) {
		if i == 0 {
			heads = r[1:]
			var want []string
			for _, n := range s.warned {
				want = append(want, n)
			}
			sort.Strings(want)
			if fmt.Sprint(heads) != fmt.Sprint(want) {
				bad("matrix", "handlers %q, want %q", heads, want)
				return
			}
			continue
		}
		if len(r) < 2 {
			continue // a level
		}
		for k, cell := range r[2:] {
			if k >= len(heads) {
				bad("matrix", "%d cells for %s", len(r)-2, r[1])
				return
			}
			want := ""
			if n := counts[heads[k]+"|"+r[1]]; n > 0 {
				want = strconv.Itoa(n)
			}
			if cell != want {
				bad("matrix", "%s has %s %q times, want %q", heads[k], r[1], cell, want)
			}
		}
	}
}

// sameNames: the tests or handlers behind two tags may have the same name.
func sameNames(l []string, m map[string]bool) bool {
	seen := make(map[string]bool)
	for _, n := range l {
		if !m[n] {
			return false
		}
		seen[n] = true
	}
	return len(seen) == len(m)
}

func (s *site) guts(d *html.Node, bad badFn) {
	tables := find(d, true, classed("table", "debug"))
	if len(tables) == 0 {
		tables = find(d, false, classed("table", "debug"))
	}
	want := []map[string]string{s.handlers, s.tests, s.warned, s.warnTest}
	if len(tables) != len(want) {
		bad("guts", "%d tables", len(tables))
		return
	}
	for i, t := range tables {
		var g, w []string
		for k, r := range rows(t) {
			if k > 0 {
				g = append(g, strings.Join(r, " = "))
			}
		}
		for tag, name := range want[i] {
			w = append(w, tag+" = "+name)
		}
		sort.Strings(g)
		sort.Strings(w)
		if e := diff(g, w); e != "" {
			bad("guts", "table %d: %s", i, e)
		}
	}
}

func (s *site) text(name string, d *html.Node, bad badFn) {
	divs := find(d, true, classed("div", "text"))
	if len(divs) == 0 {
		divs = find(d, false, classed("div", "text"))
	}
	if len(divs) != 1 {
		bad("text", "%d texts", len(divs))
		return
	}
	got := rawText(divs[0])
	for i, n := range docNames {
		if n == name && inList(s.docs, n) {
			want, _ := s.p.Docs[i].content()
			if got != want {
				bad("text", "%s: %s", name, firstDiff(got, want))
			}
			return
		}
	}
	if !strings.Contains(shown(d), "Text Not Found") {
		bad("text", "%s is not there, and yet: %.100q", name, got)
	}
}

// targets lists what a page refers to on this server.
func targets(base *url.URL, d *html.Node) (out []string) {
	seen := make(map[string]bool)
	add := func(ref string) {
		u, err := base.Parse(ref)
		if err != nil || u.Host != "" || u.Scheme != "" || ref == "" || strings.HasPrefix(ref, "#") {
			return
		}
		u.Fragment = ""
		if s := u.String(); !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, n := range find(d, false, func(n *html.Node) bool { return true }) {
		switch n.Data {
		case "a", "link":
			add(attr(n, "href"))
		case "img", "script":
			add(attr(n, "src"))
		}
	}
	return
}

// ---------------------------------------------------------------------------- charts

type svgText struct {
	x, y float64
	s    string
}

type svgDoc struct {
	texts   []svgText
	circles [][2]float64
	boxes   []svgBox // filled
}

type svgBox struct {
	l, t, r, b float64
	fill       string
}

func attrs(a []xml.Attr) map[string]string {
	m := make(map[string]string)
	for _, v := range a {
		m[v.Name.Local] = v.Value
	}
	return m
}

func parseSVG(b []byte) (*svgDoc, error) {
	dec := xml.NewDecoder(bytes.NewReader(b))
	doc := &svgDoc{}
	depth, elems := 0, 0
	var text *svgText
	num := func(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }
	for {
		t, err := dec.Token()
		if err == io.EOF {
			if depth != 0 || elems == 0 {
				return doc, fmt.Errorf("no whole document")
			}
			return doc, nil
		}
		if err != nil {
			return doc, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			depth++
			elems++
			a := attrs(t.Attr)
			switch t.Name.Local {
			case "text":
				text = &svgText{x: num(a["x"]), y: num(a["y"])}
			case "circle":
				doc.circles = append(doc.circles, [2]float64{num(a["cx"]), num(a["cy"])})
			case "path":
				f := strings.Fields(a["d"])
				box := svgBox{l: math.Inf(1), t: math.Inf(1), r: math.Inf(-1), b: math.Inf(-1)}
				n := 0
				for i := 0; i+2 < len(f); i += 3 {
					px, py := num(f[i+1]), num(f[i+2])
					box.l, box.r = math.Min(box.l, px), math.Max(box.r, px)
					box.t, box.b = math.Min(box.t, py), math.Max(box.b, py)
					n++
				}
				if n == 5 {
					if i := strings.Index(a["style"], "fill:"); i >= 0 {
						box.fill = a["style"][i+5:]
					}
					doc.boxes = append(doc.boxes, box)
				}
			}
		case xml.EndElement:
			depth--
			if t.Name.Local == "text" && text != nil {
				doc.texts = append(doc.texts, *text)
				text = nil
			}
		case xml.CharData:
			if text != nil {
				text.s += string(t)
			}
		}
	}
}

func (p *srvPlan) judgeChart(u *url.URL, c *conn, doc *svgDoc, bad badFn) {
	s := p.site()
	parts := strings.Split(strings.TrimPrefix(u.Path, "/go-slog/"), "/")
	switch {
	case parts[0] == "chart" && len(parts) == 3:
		s.barChart(parts[1], strings.TrimSuffix(parts[2], ".svg"), doc, bad)
	case parts[0] == "scores" && len(parts) == 4:
		if k := s.keeper(parts[1]); k != nil {
			n, err := strconv.Atoi(parts[2])
			switch {
			case err != nil || n < 0:
				n = 0
			case n > 3:
				n = 3
			}
			s.scoreChart(k, n, doc, bad)
		}
	}
}

func itemOf(r data.TestRecord, item string) float64 {
	switch strings.ToLower(item) {
	case "runs":
		return float64(r.Runs)
	case "nanos":
		return r.NanosPerOp
	case "memallocs":
		return float64(r.MemAllocsPerOp)
	case "membytes":
		return float64(r.MemBytesPerOp)
	case "mbpersec":
		return r.MbPerSec
	case "gbpersec":
		return r.GbPerSec
	case "tbpersec":
		return r.TbPerSec
	}
	return math.NaN()
}

func (s *site) barChart(tag, item string, doc *svgDoc, bad badFn) {
	want := make(map[string]float64)
	if _, ok := s.tests[tag]; ok {
		for i := range s.w.Handlers {
			h := &s.w.Handlers[i]
			if r, ok := benchRecs(h, nil)[tag]; ok {
				want[s.handlers[h.Tag]] = itemOf(r, item)
			}
		}
	} else {
		for i := range s.w.Handlers {
			if h := &s.w.Handlers[i]; h.Tag == tag {
				for t, r := range benchRecs(h, nil) {
					want[s.tests[t]] = itemOf(r, item)
				}
			}
		}
	}
	if len(want) == 0 {
		bad("chart", "a chart of nothing")
		return
	}
	var labels []svgText
	for _, t := range doc.texts {
		if _, ok := want[t.s]; ok {
			labels = append(labels, t)
		}
	}
	var bars []svgBox
	for _, b := range doc.boxes {
		if strings.Contains(b.fill, "rgba(84,112,198") {
			bars = append(bars, b)
		}
	}
	sort.Slice(labels, func(i, j int) bool { return labels[i].y < labels[j].y })
	sort.Slice(bars, func(i, j int) bool { return bars[i].t < bars[j].t })
	if len(labels) != len(want) || len(bars) != len(want) {
		bad("chart", "%d labels and %d bars for %d values", len(labels), len(bars), len(want))
		return
	}
	for i := range labels {
		if i > 0 && labels[i-1].s >= labels[i].s {
			bad("chart", "%q is above %q", labels[i-1].s, labels[i].s)
			return
		}
		for k := range labels {
			vi, vk := want[labels[i].s], want[labels[k].s]
			wi, wk := bars[i].r-bars[i].l, bars[k].r-bars[k].l
			if vi < vk && wi > wk+0.5 || vi == vk && math.Abs(wi-wk) > 1.5 {
				bad("chart", "%s is %v and its bar %v, %s is %v and its bar %v", labels[i].s, vi, wi, labels[k].s, vk, wk)
				return
			}
		}
	}
}

func (s *site) scoreChart(k *keeperModel, size int, doc *svgDoc, bad badFn) {
	low := []float64{0, 25, 50, 75}[size]
	jx, jy := s.w.judge(k.x), s.w.judge(k.y)
	type point struct {
		name string
		x, y float64
	}
	var must []point
	maybe := make(map[string]bool) // on the edge, or of no defined score
	names := make(map[string]bool)
	for tag, name := range s.handlers {
		if !k.keep(name) {
			continue
		}
		names[name] = true
		pt := point{name: name}
		ok := false
		if a, b := jx[tag], jy[tag]; a != nil && b != nil {
			var okx, oky bool
			pt.x, okx = a.types[score.Default]
			pt.y, oky = b.types[score.Default]
			ok = okx && oky
		}
		edge := func(v float64) bool { return math.Abs(v-low) < 1e-6 || v < 1e-4 }
		switch {
		case !ok || edge(pt.x) && pt.y > low-1e-6 || edge(pt.y) && pt.x > low-1e-6:
			maybe[name] = true
		case pt.x > low && pt.y > low:
			must = append(must, pt)
		default:
			names[name] = false
		}
	}
	var labels []string
	sort.SliceStable(doc.texts, func(i, j int) bool { return doc.texts[i].y < doc.texts[j].y })
	for _, t := range doc.texts {
		if in, ok := names[t.s]; ok {
			if !in {
				bad("score-chart", "%s is out of range, and yet there", t.s)
				return
			}
			labels = append(labels, t.s)
		}
	}
	if len(doc.boxes) < 2 {
		bad("score-chart", "no canvas")
		return
	}
	box := doc.boxes[1]
	of := make(map[int]int) // index of the circle -> of the handler
	at := make(map[string]int)
	for i, n := range labels {
		if _, ok := at[n]; ok {
			bad("score-chart", "%s is there twice", n)
			return
		}
		at[n] = i
	}
	// Circles within rounding of where handlers belong: each handler needs one
	// of its own, so that a handler may have to make way for another.
	where := func(pt point) (float64, float64) {
		return box.l + (pt.x-low)/(100-low)*(box.r-box.l), box.b - (pt.y-low)/(100-low)*(box.b-box.t)
	}
	var claim func(int, map[int]bool) bool
	claim = func(h int, seen map[int]bool) bool {
		cx, cy := where(must[h])
		for i, c := range doc.circles {
			if math.Abs(c[0]-cx) > 2 || math.Abs(c[1]-cy) > 2 || seen[i] {
				continue
			}
			seen[i] = true
			if o, taken := of[i]; !taken || claim(o, seen) {
				of[i] = h
				return true
			}
		}
		return false
	}
	for h, pt := range must {
		if _, ok := at[pt.name]; !ok {
			bad("score-chart", "%s (%.2f, %.2f) has no label among %q", pt.name, pt.x, pt.y, labels)
			return
		}
		if !claim(h, make(map[int]bool)) {
			cx, cy := where(pt)
			bad("score-chart", "%s (%.2f, %.2f) should be at (%.0f, %.0f): %v in %v", pt.name, pt.x, pt.y, cx, cy, doc.circles, box)
			return
		}
		for _, o := range must {
			if pt.y > o.y+1e-6 && at[pt.name] > at[o.name] {
				if _, ok := at[o.name]; ok {
					bad("score-chart", "the label of %s (%.4f) is below that of %s (%.4f)", pt.name, pt.y, o.name, o.y)
					return
				}
			}
		}
	}
	if len(doc.circles)-len(of) > len(maybe) {
		bad("score-chart", "%d points for %d to %d handlers", len(doc.circles), len(must), len(must)+len(maybe))
	}
}
