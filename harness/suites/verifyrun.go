package zsuites

import (
	"bytes"
	"io"
	"log/slog"
	"maps"
	"math/rand"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

type vfDev struct {
	Name     string `json:"name"`
	Variant  int    `json:"variant"`
	Declared bool   `json:"declared"`
}

type vfPlan struct {
	Maker    int      `json:"maker"` // a real creator, or -1: the simulated handler
	Devs     []vfDev  `json:"devs"`
	Unneeded []string `json:"unneeded"` // declared for nothing
	Order    int64    `json:"order"`    // of the tests
	Sleep    int      `json:"sleep"`    // microseconds of a Handle
	Parts    int      `json:"parts"`    // Writes of a line
	Logger   bool     `json:"logger"`
	Before   []vfDev  `json:"before"` // another handler, of the same name, for which the suite ran before
	Watch    bool     `json:"watch"`  // look at the warnings after each test
}

// unneeded are warnings that do not change what the suite expects of a handler that follows the rules.
var unneeded = []*warning.Warning{warning.GroupEmpty, warning.GroupInline, warning.LevelVar, warning.Mismatch, warning.SlogTest, warning.WithGroupEmpty,
	warning.ZeroPC, warning.ZeroTime, warning.CanceledContext, warning.LevelMath, warning.MessageKey, warning.ReplAttrGroup, warning.SourceCaller,
	warning.WithGroup, warning.GroupDuration, warning.NoEmptyName, warning.StringAny, warning.TimeMillis}

// entangled: what the suite expects of two of them at once is not that of each.
var entangled = []string{"groupMsgTop", "withGroupTop", "siblings", "durString", "durSeconds", "durMillis", "groupDuration", "resolve", "timeMillis",
	"timeSeconds", "withGroupEmpty", "noReplace", "noReplBasic"}

func genVfPlan(r *zcore.Rand) any {
	p := &vfPlan{Maker: -1, Order: int64(r.N(1 << 30)), Parts: r.N(4)}
	if r.P(0.4) {
		p.Sleep = zcore.Pick(r, 1, 50, 1000, 20_000, 1_000_000, 40_000_000)
	}
	all := deviations()
	switch k := r.N(20); {
	case k == 0:
		p.Maker = r.N(4)
	case k < 4: // follows all rules
	default:
		n := 1
		if r.P(0.3) {
			n = 2
		}
		for len(p.Devs) < n {
			d := all[r.N(len(all))]
			if !slices.ContainsFunc(p.Devs, func(o vfDev) bool { return o.Name == d.name }) {
				if len(p.Devs) == 1 && slices.Contains(entangled, d.name) && slices.Contains(entangled, p.Devs[0].Name) {
					continue
				}
				p.Devs = append(p.Devs, vfDev{d.name, r.N(d.variants), d.warn != nil && r.P(0.6)})
			}
		}
	}
	if len(p.Devs) == 0 && p.Maker < 0 {
		for r.P(0.3) {
			p.Unneeded = append(p.Unneeded, unneeded[r.N(len(unneeded))].Name)
		}
	}
	p.Logger = r.P(0.3)
	p.Watch = r.P(0.3)
	if r.P(0.15) {
		for i := r.N(3); i >= 0; i-- {
			d := all[r.N(len(all))]
			p.Before = append(p.Before, vfDev{d.name, r.N(d.variants), d.warn != nil && r.P(0.7)})
		}
	}
	return p
}

func runVfPlan(plan any, x *zcore.Exec) {
	p := plan.(*vfPlan)
	oldDefault, oldOut := slog.Default(), zsim.Stdout
	defer func() {
		slog.SetDefault(oldDefault)
		zsim.Stdout = oldOut
		testing.ZsimGo = nil
	}()
	testing.ZsimGo = func(f func()) { zsim.Go(f) }
	slog.SetDefault(slog.New(&bnLog{}))
	var out bytes.Buffer
	zsim.Stdout = &out
	dev := Dev{}
	byName := make(map[string]deviation)
	for _, d := range deviations() {
		byName[d.name] = d
	}
	p.Devs = slices.DeleteFunc(p.Devs, func(d vfDev) bool { return byName[d.Name].name == "" })
	if len(p.Devs) > 0 {
		p.Unneeded = nil
	}
	var declare []*warning.Warning
	declared := make(map[string]bool)
	allDeclared := true
	for _, d := range p.Devs {
		dev[d.Name] = d.Variant
		allDeclared = allDeclared && d.Declared && byName[d.Name].warn != nil
		if d.Declared && byName[d.Name].warn != nil {
			declare = append(append(declare, byName[d.Name].warn), byName[d.Name].also...)
		}
	}
	for _, n := range p.Unneeded {
		for _, w := range unneeded {
			if w.Name == n {
				declare = append(declare, w)
			}
		}
	}
	if p.Maker >= 0 {
		declare = append(declare, warning.Duplicates)
	}
	for _, w := range declare {
		declared[w.Name] = true
	}
	var creator infra.Creator
	if p.Maker >= 0 {
		creator = makers[p.Maker].make()
	} else {
		mk := func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
			h := newSimHandler(w, o, dev)
			h.sleep, h.parts = time.Duration(p.Sleep)*time.Microsecond, p.Parts
			return h
		}
		creator = infra.NewCreator("sim/handler", mk, nil, "", nil)
	}
	if p.Logger {
		c := creator
		creator = infra.NewCreator("sim/handler", nil, c.NewLogger, "", nil)
	}
	s := x.Sim()
	var v *verdict
	s.Spawn("main", func() {
		if len(p.Before) > 0 {
			other := Dev{}
			var ws []*warning.Warning
			for _, d := range p.Before {
				if b := byName[d.Name]; b.name != "" {
					other[d.Name] = d.Variant
					if d.Declared && b.warn != nil {
						ws = append(append(ws, b.warn), b.also...)
					}
				}
			}
			c := infra.NewCreator(creator.Name(), func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return newSimHandler(w, o, other) }, nil, "", nil)
			_ = runSuite(c, ws, rand.New(rand.NewSource(p.Order+1)).Perm, false, x)
			x.Count("suites before", 1)
		}
		v = runSuite(creator, declare, rand.New(rand.NewSource(p.Order)).Perm, p.Watch, x)
	})
	if !x.RunSim(s) {
		return
	}
	x.Count("tests", v.tests)
	who := "a handler that follows all rules"
	if p.Maker >= 0 {
		who = makers[p.Maker].name
	}
	var names []string
	for _, d := range p.Devs {
		n := d.Name
		if d.Declared {
			n += " (declared)"
		}
		names = append(names, n)
	}
	if names != nil {
		who = "a handler with " + strings.Join(names, ", ")
	}
	if !allDeclared {
		x.Count("undeclared", 1)
		// What is declared may hide what is not.
		if len(v.failed) == 0 && !slices.ContainsFunc(p.Devs, func(d vfDev) bool { return d.Declared }) {
			x.Fail("passed", "%s passes", who)
		}
	} else {
		x.Count("followed or declared", 1)
		for _, t := range slices.Sorted(maps.Keys(v.failed)) {
			known := false
			for _, d := range p.Devs {
				if slices.Contains(strings.Fields(byName[d.Name].hard), t) {
					known = true
					x.Fail("declared-fails", "%s fails for %s though it is declared", t, d.Name)
				}
			}
			if !known {
				x.Fail("failed", "%s fails for %s: %s", t, who, strings.Join(strings.Fields(v.failed[t]), " "))
			}
		}
	}
	// Warnings.
	for _, u := range v.warnings {
		for _, d := range u.Data {
			if u.Name == warning.Unused.Name && slices.ContainsFunc(v.warnings, func(w *warning.Instances) bool { return w.Name == d.Text }) {
				x.Fail("false-warning", "%s: warning %s is said to be unused, and was given", who, d.Text)
			}
		}
	}
	seen := make(map[string]int)
	for _, w := range v.warnings {
		seen[w.Name] = int(w.Count)
		if int(w.Count) != len(w.Data) || w.Count == 0 {
			x.Fail("wrong-count", "warning %s has count %d and %d instances", w.Name, w.Count, len(w.Data))
		}
		for _, d := range w.Data {
			if !strings.HasPrefix(d.Function, "Test") {
				x.Fail("wrong-function", "a warning %s of function %q", w.Name, d.Function)
			}
			if w.Name == warning.Unused.Name && (d.Text == warning.WithGroup.Name || d.Text == warning.GroupEmpty.Name) && (declared[warning.WithGroup.Name] || declared[warning.GroupEmpty.Name]) {
				continue // TestGroupWithMultiSubEmpty names both
			}
			if w.Name == warning.Unused.Name && !declared[d.Text] && !(d.Text == warning.TimeMillis.Name && declared[warning.TimeSeconds.Name]) {
				x.Fail("false-warning", "%s: unused warning %q was not declared", who, d.Text)
			}
		}
		if w.Name == warning.Unused.Name || declared[w.Name] || w.Name == warning.SkippingTest.Name {
			continue
		}
		if len(p.Devs) > 0 && (w.Name == warning.Mismatch.Name || w.Name == warning.WithGroup.Name || w.Name == warning.GroupEmpty.Name || w.Name == warning.LevelWrong.Name) {
			continue // given on top of a failing test
		}
		if w.Name == warning.TimeMillis.Name && declared[warning.TimeSeconds.Name] {
			x.Fail("wrong-warning", "TimeSeconds is reported as TimeMillis")
			continue
		}
		x.Fail("false-warning", "%s: warning %s, not declared: %+v", who, w.Name, w.Data)
	}
	for _, d := range p.Devs {
		w := byName[d.Name].warn
		if !d.Declared || w == nil || seen[w.Name] > 0 || len(p.Devs) > 1 || d.Name == "timeSeconds" {
			continue
		}
		x.Fail("no-warning", "%s: no warning %s", who, w.Name)
	}
	for _, n := range p.Unneeded {
		if len(p.Devs) == 0 && seen[n] > 0 {
			x.Fail("false-warning", "%s: warning %s", who, n)
		}
	}
}

var verifyProp = &zcore.Prop{ID: "C19", Gen: genVfPlan, New: func() any { return &vfPlan{} }, Run: runVfPlan,
	WarmPlans: []any{&vfPlan{Maker: 0}, &vfPlan{Maker: 1}, &vfPlan{Maker: 2}, &vfPlan{Maker: 3}},
	Quick:     3000, Thorough: 100000, Length: 400, MaxPts: 2_000_000,
	Rule: "the verification suite, with its tests in any order, run against handlers that break slog's rules in one or two of fifty ways, declared or not, write lines in pieces and take their time",
	Real: []string{"verify/tests", "infra/warning", "infra", "internal/json", "internal/misc", "internal/test", "creator/*", "handlers/flash", "handlers/sloggy", "replace"},
	Stub: []string{"simulated handler", "testify's runner", "clock", "goroutine scheduler"}}
