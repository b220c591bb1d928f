package zweb

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"strings"
	"time"

	"github.com/madkins23/go-slog/handlers/trace"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

func withStep(ctx context.Context, st *reqStep) context.Context {
	return context.WithValue(ctx, stepKey{}, st)
}

type tracePlan struct {
	Indent  string        `json:"indent"`
	Clients [][]traceStep `json:"clients"`
	Faults  []zsim.Fault  `json:"faults"`
	Slow    bool          `json:"slow"`
}

type traceStep struct {
	Do    string      `json:"do"` // enabled, handle, attrs, group
	L     int         `json:"l"`
	Level int         `json:"level"`
	Text  string      `json:"text"`
	Attrs []traceAttr `json:"attrs"`
}

type traceAttr struct {
	K string `json:"k"`
	S string `json:"s"`
	N int64  `json:"n"`
	G bool   `json:"g"`
}

func traceText(r *zcore.Rand) string {
	switch {
	case r.P(0.02):
		return strings.Repeat(word(r)+" ", r.Range(20, 2000))
	case r.P(0.002):
		return strings.Repeat(word(r)+" ", r.Range(2000, 20000))
	case r.P(0.05):
		return zcore.Pick(r, "100%", "%d%s%v", "\"q\"")
	}
	return word(r)
}

func genTraceAttrs(r *zcore.Rand) (as []traceAttr) {
	n := r.N(8)
	if r.P(0.01) {
		n = r.Range(20, 120)
	}
	for i := n; i > 0; i-- {
		as = append(as, traceAttr{K: zcore.Pick(r, "a", "bee", "", "x y", "ü", "%s", "100%"), S: traceText(r), N: int64(r.N(1000) - 500), G: r.P(0.2)})
	}
	return
}

func (a traceAttr) attr() slog.Attr {
	switch {
	case a.G:
		return slog.Group(a.K, slog.String("s", a.S), slog.Int64("n", a.N))
	case a.N%2 == 0:
		return slog.Int64(a.K, a.N)
	case a.N%11 == 3:
		return slog.Duration(a.K, time.Duration(a.N)*time.Millisecond)
	case a.N%11 == 5:
		return slog.Any(a.K, errors.New(a.S))
	case a.N%11 == 7:
		return slog.Any(a.K, []string{a.S, "x"})
	case a.N%11 == 9:
		return slog.Bool(a.K, a.N > 0)
	}
	return slog.String(a.K, a.S)
}

func (a traceAttr) text() string {
	switch {
	case a.G:
		return fmt.Sprintf("%s=[s=%s n=%d]", a.K, a.S, a.N)
	case a.N%2 == 0:
		return fmt.Sprintf("%s=%d", a.K, a.N)
	case a.N%11 == 3:
		return fmt.Sprintf("%s=%v", a.K, time.Duration(a.N)*time.Millisecond)
	case a.N%11 == 7:
		return fmt.Sprintf("%s=[%s x]", a.K, a.S)
	case a.N%11 == 9:
		return fmt.Sprintf("%s=%v", a.K, a.N > 0)
	}
	return a.K + "=" + a.S
}

func genTracePlan(r *zcore.Rand) any {
	p := &tracePlan{Indent: zcore.Pick(r, "", "  ", ">> ", "\t", "50%d "), Slow: r.P(0.3)}
	for i := r.Range(1, 4); i > 0; i-- {
		var c []traceStep
		n := r.Range(1, 8)
		long := r.P(0.01)
		if long {
			n = r.Range(30, 90)
		}
		for j := n; j > 0; j-- {
			if long && r.P(0.7) { // ever deeper
				c = append(c, traceStep{Do: zcore.Pick(r, "attrs", "group", "handle"), L: -1 - r.N(2), Text: traceText(r), Attrs: genTraceAttrs(r)})
				continue
			}
			c = append(c, traceStep{Do: zcore.Pick(r, "enabled", "handle", "handle", "attrs", "group"), L: r.N(6), Level: r.Range(-9, 13), Text: traceText(r), Attrs: genTraceAttrs(r)})
		}
		p.Clients = append(p.Clients, c)
	}
	if r.P(0.3) {
		for i := r.Range(1, 3); i > 0; i-- {
			p.Faults = append(p.Faults, zsim.Fault{At: r.N(20), Kind: zcore.Pick(r, "err", "stall", "short"), N: r.N(10), Delay: r.N(50)})
		}
	}
	return p
}

func runTracePlan(pl any, x *zcore.Exec) {
	p := pl.(*tracePlan)
	s := x.Sim()
	dest := &zsim.Dest{Faults: p.Faults, Slow: p.Slow}
	old := zsim.Stdout
	zsim.Stdout = dest
	defer func() { zsim.Stdout = old }()
	type lg struct {
		h      slog.Handler
		indent string
	}
	root := &lg{trace.NewHandler(p.Indent), p.Indent}
	want := make(map[int][]string)
	for _, steps := range p.Clients {
		steps := steps
		s.Spawn("client", func() {
			me := zsim.TaskID()
			lgs := []*lg{root}
			for _, st := range steps {
				l := lgs[0]
				if st.L < 0 {
					l = lgs[(len(lgs)*1000+st.L)%len(lgs)]
				} else {
					l = lgs[st.L%len(lgs)]
				}
				var as []slog.Attr
				var texts []string
				for _, a := range st.Attrs {
					as = append(as, a.attr())
					texts = append(texts, a.text())
				}
				note := func(f string, a ...any) { want[me] = append(want[me], l.indent+fmt.Sprintf(f, a...)+"\n") }
				switch st.Do {
				case "enabled":
					note("Enabled(%s)", slog.Level(st.Level))
					if !l.h.Enabled(context.Background(), slog.Level(st.Level)) {
						x.Fail("not-enabled", "Enabled(%v) is false", slog.Level(st.Level))
					}
				case "handle":
					rec := slog.NewRecord(time.Time{}, slog.Level(st.Level), st.Text, 0)
					rec.AddAttrs(as...)
					// Records drop empty groups when attributes are added.
					img := fmt.Sprintf("%s \"%s\"", slog.Level(st.Level), st.Text)
					if len(texts) > 0 {
						img += " {" + strings.Join(texts, ", ") + "}"
					}
					note("Handle(%s)", img)
					if err := l.h.Handle(context.Background(), rec); err != nil {
						x.Fail("error", "Handle: %v", err)
					}
				case "attrs":
					note("WithAttrs([%s])", strings.Join(texts, " "))
					lgs = append(lgs, &lg{l.h.WithAttrs(as), l.indent + "  "})
				case "group":
					note("WithGroup(%s)", st.Text)
					lgs = append(lgs, &lg{l.h.WithGroup(st.Text), l.indent + "  "})
				}
			}
		})
	}
	if !x.RunSim(s) {
		return
	}
	got := make(map[int][]string)
	for _, c := range dest.Chunks {
		got[c.Task] = append(got[c.Task], string(c.Data))
		x.Note(fmt.Sprint(c.Task, string(c.Data)))
		if c.Changed {
			x.Fail("changed", "the bytes changed during Write: %q", c.Data)
		}
	}
	for t, w := range want {
		for i := range w {
			if i >= len(got[t]) {
				x.Fail("missing", "no line %q", w[i])
				break
			}
			if got[t][i] != w[i] {
				x.Fail("line", "wrote %q, want %q", got[t][i], w[i])
				break
			}
			x.Count("lines", 1)
		}
		if len(got[t]) > len(w) {
			x.Fail("extra", "wrote %q", got[t][len(w)])
		}
	}
	_ = root
}

var traceProp = &zcore.Prop{ID: "C10", Gen: genTracePlan, New: func() any { return &tracePlan{} }, Run: runTracePlan,
	Quick: 20000, Thorough: 1000000, Length: 400, MaxPts: 100_000,
	Rule: "plans of concurrent calls on a trace handler and handlers derived from it, with faults of the standard output",
	Real: []string{"handlers/trace", "log/slog"},
	Stub: []string{"standard output", "goroutine scheduler"}}
