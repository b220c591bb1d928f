package zweb

import (
	"flag"
	"fmt"
	"log/slog"
	"os"
	"sort"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
	"github.com/madkins23/go-slog/internal/ztabular"
)

// ---------------------------------------------------------------------------- C15: the tabular command

type tabPlan struct {
	World  *world            `json:"world"`
	Faults [2]zsim.ReadFault `json:"faults"`
	Stdin  bool              `json:"stdin"`
	Langs  []string          `json:"langs"`
	Absent int               `json:"absent"` // 1, 2: no such file
	Long   longLine          `json:"long"`
}

func genTabPlan(r *zcore.Rand) any {
	p := &tabPlan{World: genWorld(r, r.P(0.3)), Stdin: r.P(0.3), Long: genLong(r)}
	for r.P(0.3) {
		p.Langs = append(p.Langs, zcore.Pick(r, "de", "fr", "en-IN", "not a language", "x!", "es", "sv", "C"))
	}
	for i := range p.Faults {
		p.Faults[i] = genChunks(r)
		p.Faults[i].Chunks = append(p.Faults[i].Chunks, 1000)
		if r.P(0.08) {
			p.Faults[i].ErrAt = 1 + r.N(3000)
		}
	}
	switch r.N(16) {
	case 0:
		p.Faults[r.N(2)].Open = true
	case 1:
		p.Absent = r.Range(1, 2)
	}
	return p
}

// outFile stands for the terminal: code that cannot be redirected writes to the process's standard output.
var outFile *os.File

func captureStdout(f func()) (text string, err error) {
	if outFile == nil {
		if outFile, err = os.CreateTemp("", "zsim-out-"); err != nil {
			return
		}
		_ = os.Remove(outFile.Name())
	}
	if err = outFile.Truncate(0); err != nil {
		return
	}
	if _, err = outFile.Seek(0, 0); err != nil {
		return
	}
	oldOS, oldSim := os.Stdout, zsim.Stdout
	os.Stdout, zsim.Stdout = outFile, outFile
	defer func() {
		os.Stdout, zsim.Stdout = oldOS, oldSim
	}()
	f()
	raw, err := os.ReadFile(fmt.Sprintf("/proc/self/fd/%d", outFile.Fd()))
	return string(raw), err
}

func runTabPlan(pl any, x *zcore.Exec) {
	p := pl.(*tabPlan)
	makeWarnings()
	bench, verify := p.World.files(plainSection, [2]string{plainByWarning(p.World, "# "), plainByWarning(p.World, "")})
	texts := [2]string{bench, verify}
	p.Long.put(&texts)
	useFiles(texts[0], texts[1], p.Faults, p.Stdin)
	switch p.Absent {
	case 1:
		delete(zsim.FS.Files, benchPath)
	case 2:
		delete(zsim.FS.Files, verifyPath)
	}
	for _, l := range p.Langs {
		_ = flag.Set("language", l)
	}
	errOut := &zsim.Dest{}
	oldErr := zsim.Stderr
	zsim.Stderr = errOut
	oldDefault := slog.Default()
	before := errorFaults()
	ok := false
	text, err := captureStdout(func() {
		s := x.Sim()
		s.Spawn("tabular", func() { ztabular.ZMain() })
		ok = x.RunSim(s)
	})
	zsim.FS = nil
	zsim.Stderr = oldErr
	slog.SetDefault(oldDefault)
	if !ok {
		return
	}
	if err != nil {
		panic(err)
	}
	x.Note(text)
	log := ""
	for _, c := range errOut.Chunks {
		log += string(c.Data)
	}
	if failed := errorFaults() > before || p.Long.over() && strings.Contains(log, "ERR"); failed || p.Absent == 2 || p.Absent == 1 && !p.Stdin {
		x.Count("errors", 1)
		if text != "" {
			x.Fail("partial", "there was an error, and yet a report: %.200q", text)
		}
		if !strings.Contains(log, "ERR") {
			x.Fail("silent", "no error in the log: %q", log)
		}
		return
	}
	if strings.Contains(log, "ERR") {
		x.Fail("error", "%q", log)
	}
	tag := language.AmericanEnglish
	for _, l := range append(append([]string(nil), p.Langs...), "en_US") {
		if t, err := language.Parse(l); err == nil {
			tag = t
			break
		}
	}
	checkTabular(x, p.World, message.NewPrinter(tag), text)
}

// checkTabular compares the printed report with the world.
func checkTabular(x *zcore.Exec, world *world, pr *message.Printer, text string) {
	type row struct{ name, text string }
	tests := make(map[string][]row)
	names := make(map[string]string) // tag to name
	for tag, name := range invert(world.defs()) {
		names[tag] = name
	}
	for i := range world.Handlers {
		h := &world.Handlers[i]
		for k := range h.Bench {
			rec := &h.Bench[k]
			if rec.Runs == 0 {
				continue
			}
			tr := benchRecs(h, nil)["Bench."+rec.Test]
			name := names[h.Tag]
			tests[camel(rec.Test)] = append(tests[camel(rec.Test)], row{name, strings.Join([]string{name, pr.Sprintf("%d", tr.Runs), pr.Sprintf("%.2f", tr.NanosPerOp),
				pr.Sprintf("%d", tr.MemAllocsPerOp), pr.Sprintf("%d", tr.MemBytesPerOp), pr.Sprintf("%.2f", tr.MbPerSec)}, "|")})
		}
	}
	var order []string
	for t := range tests {
		order = append(order, t)
	}
	sort.Strings(order)
	var want []string
	for _, t := range order {
		want = append(want, "Benchmark "+t, "Handler|Runs|Ns/Op|Allocs/Op|Bytes/Op|MB/Sec")
		rows := tests[t]
		sort.Slice(rows, func(i, j int) bool { return rows[i].name < rows[j].name })
		for _, r := range rows {
			want = append(want, r.text)
		}
		x.Count("rows", len(rows))
	}
	tables, rest := text, ""
	if i := strings.Index(text, "\nWarnings for "); i >= 0 {
		tables, rest = text[:i], text[i:]
	}
	var got []string
	for _, l := range strings.Split(tables, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case t == "" || strings.HasPrefix(t, "╔") || strings.HasPrefix(t, "╚") || strings.HasPrefix(t, "╠"):
		case strings.HasPrefix(t, "║"):
			parts := strings.FieldsFunc(t, func(r rune) bool { return r == '║' || r == '│' })
			for i := range parts {
				parts[i] = strings.Trim(parts[i], " ")
			}
			got = append(got, strings.Join(parts, "|"))
		default:
			got = append(got, t)
		}
	}
	if d := firstDiff(strings.Join(got, "\n"), strings.Join(want, "\n")); d != "" {
		x.Fail("tables", "%s", d)
		return
	}
	// Warnings: within one warning, of the same test, the order is not defined.
	type section struct {
		name string
		text []string
	}
	var secs []section
	seen := make(map[string]bool)
	fs := world.findings()
	for i := range world.Handlers {
		h := &world.Handlers[i]
		if !h.Show[0] && !h.Show[1] || seen[world.warnTag(h)] {
			continue
		}
		seen[world.warnTag(h)] = true
		name := h.Name
		if _, known := world.defs()[h.Name]; !known {
			name = capitals(h.Name)
		}
		sec := section{name: name}
		for _, l := range warning.LevelOrder {
			groups := make(map[string][]finding)
			for _, f := range fs {
				if f.Handler == world.warnTag(h) && f.Level == l.String() {
					groups[f.Warning] = append(groups[f.Warning], f)
				}
			}
			if len(groups) == 0 {
				continue
			}
			sec.text = append(sec.text, "  "+l.String())
			var wn []string
			for n := range groups {
				wn = append(wn, n)
			}
			sort.Strings(wn)
			for _, n := range wn {
				g := groups[n]
				sec.text = append(sec.text, fmt.Sprintf("  %4d [%s] %s", len(g), n, g[0].Summary))
				var blocks []string
				for _, f := range g {
					b := "         " + f.Source + ":" + f.Tag
					if e := f.Extra; e != "" {
						if strings.Contains(e, "\n") {
							e = "\n           " + strings.ReplaceAll(e, "\n", "\n           ")
						}
						b += ": " + e
					}
					if f.Line != "" {
						b += "\n           " + f.Line
					}
					blocks = append(blocks, b)
				}
				sort.Strings(blocks)
				sec.text = append(sec.text, blocks...)
			}
		}
		secs = append(secs, sec)
	}
	sort.Slice(secs, func(i, j int) bool { return secs[i].name < secs[j].name })
	want = nil
	for _, s := range secs {
		want = append(append(want, "Warnings for "+s.name+":"), s.text...)
	}
	want = strings.Split(strings.Join(want, "\n"), "\n")
	got = nil
	var blocks []string
	lastTest := ""
	flush := func() {
		sort.Strings(blocks)
		for _, b := range blocks {
			got = append(got, strings.Split(b, "\n")...)
		}
		blocks, lastTest = nil, ""
	}
	open := false
	for _, l := range strings.Split(rest, "\n") {
		switch {
		case strings.HasPrefix(l, "         ") && !strings.HasPrefix(l, "          "):
			blocks = append(blocks, l)
			test := l[strings.Index(l, ":")+1:]
			if i := strings.Index(test, ":"); i >= 0 {
				test = test[:i]
			}
			if test = camel(test); test < lastTest {
				x.Fail("order", "%q comes after %q", test, lastTest)
			} else {
				lastTest = test
			}
			open = true
		case open && strings.HasPrefix(l, "           "):
			blocks[len(blocks)-1] += "\n" + l
		default:
			flush()
			open = false
			if l != "" {
				got = append(got, l)
			}
		}
	}
	flush()
	if d := firstDiff(strings.Join(got, "\n"), strings.Join(want, "\n")); d != "" {
		x.Fail("warnings", "%s", d)
	}
	x.Count("findings", len(fs))
}

func invert(m map[string]string) map[string]string {
	o := make(map[string]string)
	for k, v := range m {
		o[v] = k
	}
	return o
}

// capitals is the name of a handler that no benchmark names.
func capitals(s string) string {
	parts := strings.Split(s, "/")
	for i, p := range parts {
		if p != "" {
			parts[i] = strings.ToUpper(p[:1]) + strings.ToLower(p[1:])
		}
	}
	return strings.Join(parts, " ")
}

var tabProp = &zcore.Prop{ID: "C15", Gen: genTabPlan, New: func() any { return &tabPlan{} }, Run: runTabPlan,
	Quick: 3000, Thorough: 200000, Length: 300, MaxPts: 4_000_000, NoSched: true,
	Rule: "random results in files or on standard input that come in arbitrary pieces, fail, or are missing; the whole command runs, and its output is compared with one rendered from the results themselves",
	Real: []string{"cmd/tabular", "internal/data", "internal/language", "go-utils/text/table", "x/text/message", "console-slog"},
	Stub: []string{"files, standard input and output"}}
