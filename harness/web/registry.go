package zweb

import (
	"fmt"
	"sort"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// regOp is one call of the warning registry.
type regOp struct {
	Op      string `json:"op"` // new, name, level, list
	Name    string `json:"name"`
	Level   int    `json:"level"`
	Summary string `json:"summary"`
	Desc    string `json:"desc"`
}

type regPlan struct {
	Clients [][]regOp `json:"clients"`
}

func genRegPlan(r *zcore.Rand) any {
	p := &regPlan{}
	names := []string{"ZAlpha", "ZBravo", "ZCharlie", "AA", "zz", "Mismatch", "Zé", "M1"}
	names = names[:r.Range(2, len(names))]
	many := r.P(0.02) // a long list
	if many {
		for i := 0; i < 90; i++ {
			names = append(names, fmt.Sprintf("%s%d", zcore.Pick(r, "A", "M", "Z", "z", "É"), r.N(1000)))
		}
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var c []regOp
		n := r.Range(1, 6)
		if many {
			n = r.Range(20, 80)
		}
		for j := n; j > 0; j-- {
			op := regOp{Op: zcore.Pick(r, "new", "new", "new", "name", "name", "level", "level", "list"), Name: names[r.N(len(names))],
				Level: r.Range(1, 4), Summary: fmt.Sprintf("s%d", r.N(100)), Desc: zcore.Pick(r, "", "", "one line", "\n\t\tindented ^code^\n\t\t  more\n")}
			if r.P(0.05) {
				op.Name = zcore.Pick(r, "SourceKey", "Never", "NoHandlerCreation")
			}
			c = append(c, op)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

type regDone struct {
	op         *regOp
	start, end int
	w          *warning.Warning
	list       []*warning.Warning
	names      []string // of the list when it was returned
}

func listNames(l []*warning.Warning) []string {
	out := make([]string, len(l))
	for i, w := range l {
		if w == nil {
			out[i] = "<nil>"
		} else {
			out[i] = w.Name
		}
	}
	return out
}

func runRegPlan(pl any, x *zcore.Exec) {
	p := pl.(*regPlan)
	col := &collector{min: 100}
	withDefault(col, func() {
		// What was there before.
		base := make(map[string]*warning.Warning)
		for l := warning.LevelAdmin; l <= warning.LevelRequired; l++ {
			for _, w := range warning.WarningsForLevel(l) {
				base[w.Name] = w
			}
		}
		zsim.RestoreGlobals() // undo the listing: whether there was one matters
		var done []*regDone
		s := x.Sim()
		for _, ops := range p.Clients {
			ops := ops
			s.Spawn("client", func() {
				for i := range ops {
					d := &regDone{op: &ops[i], start: zsim.Step()}
					switch d.op.Op {
					case "new":
						d.w = warning.NewWarning(warning.Level(d.op.Level), d.op.Name, d.op.Summary, d.op.Desc)
					case "name":
						d.w = warning.ByName(d.op.Name)
					case "level":
						d.list = warning.WarningsForLevel(warning.Level(d.op.Level))
					case "list":
						switch warning.Level(d.op.Level) {
						case warning.LevelAdmin:
							d.list = warning.Administrative()
						case warning.LevelImplied:
							d.list = warning.Implied()
						default:
							d.list = warning.Level(d.op.Level).Warnings()
						}
					}
					d.names = listNames(d.list)
					d.end = zsim.Step()
					done = append(done, d)
				}
			})
		}
		if !x.RunSim(s) {
			return
		}
		byName := make(map[string]*warning.Warning)
		for n, w := range base {
			byName[n] = w
		}
		for _, d := range done {
			x.Note(fmt.Sprintf("%s %s %d %v %v", d.op.Op, d.op.Name, d.op.Level, d.w != nil, d.names))
			if d.w != nil {
				if d.w.Name != d.op.Name {
					x.Fail("wrong-warning", "%s(%q) returned the warning %q", d.op.Op, d.op.Name, d.w.Name)
				}
				if old := byName[d.op.Name]; old == nil {
					byName[d.op.Name] = d.w
				} else if old != d.w {
					x.Fail("two-warnings", "two different warnings named %q were handed out", d.op.Name)
				}
			}
			if d.op.Op == "new" {
				x.Count("created", 1)
			}
		}
		// Each warning stems from a call that nothing older precludes.
		for n, w := range byName {
			if base[n] != nil {
				continue
			}
			firstEnd := 1 << 60
			for _, d := range done {
				if d.op.Op == "new" && d.op.Name == n && d.end < firstEnd {
					firstEnd = d.end
				}
			}
			ok := false
			for _, d := range done {
				if d.op.Op == "new" && d.op.Name == n && d.start <= firstEnd && w.Level == warning.Level(d.op.Level) && w.Summary == d.op.Summary &&
					w.HasDescription() == (strings.TrimSpace(d.op.Desc) != "") {
					ok = true
				}
			}
			if !ok {
				x.Fail("wrong-content", "warning %q is %v %q: of no call that could have made it", n, w.Level, w.Summary)
			}
		}
		known := func(n string, before int) bool { // certainly there before a step
			if base[n] != nil {
				return true
			}
			for _, d := range done {
				if d.end < before && d.op.Name == n && (d.op.Op == "new" || d.op.Op == "name" && d.w != nil) {
					return true
				}
				if d.end < before {
					for _, m := range d.names {
						if m == n {
							return true
						}
					}
				}
			}
			return false
		}
		possible := func(n string, by int) bool {
			if base[n] != nil {
				return true
			}
			for _, d := range done {
				if d.op.Op == "new" && d.op.Name == n && d.start <= by {
					return true
				}
			}
			return false
		}
		var lists []*regDone
		for _, d := range done {
			switch d.op.Op {
			case "new":
				if d.w == nil {
					x.Fail("no-warning", "NewWarning(%q) returned nil", d.op.Name)
				}
			case "name":
				if d.w == nil && known(d.op.Name, d.start) {
					x.Fail("not-found", "ByName(%q) found nothing although the warning was there before", d.op.Name)
				}
				if d.w != nil && !possible(d.op.Name, d.end) {
					x.Fail("from-nowhere", "ByName(%q)", d.op.Name)
				}
			default:
				lists = append(lists, d)
				if !sort.StringsAreSorted(d.names) {
					x.Fail("not-sorted", "level %d: %v", d.op.Level, d.names)
				}
				seen := make(map[string]bool)
				for i, n := range d.names {
					if seen[n] {
						x.Fail("twice", "level %d lists %q twice", d.op.Level, n)
					}
					seen[n] = true
					w := d.list[i]
					if w == nil || int(w.Level) != d.op.Level || byName[n] != nil && byName[n] != w || !possible(n, d.end) {
						x.Fail("foreign", "level %d lists %q wrongly", d.op.Level, n)
					}
				}
				for n, w := range byName {
					if int(w.Level) == d.op.Level && !seen[n] && known(n, d.start) {
						x.Fail("missing", "the list of level %d lacks %q, which was there before", d.op.Level, n)
					}
				}
				now := listNames(d.list)
				for i := range now {
					if now[i] != d.names[i] {
						x.Fail("list-changed", "a list handed out earlier changed from %v to %v", d.names, now)
						break
					}
				}
				x.Count("lists", 1)
			}
		}
		// Some order explains all lists of a level: each two are one within the other.
		for i, a := range lists {
			for _, b := range lists[i+1:] {
				if a.op.Level == b.op.Level && !within(a.names, b.names) && !within(b.names, a.names) {
					x.Fail("no-order", "lists of level %d: %v and %v", a.op.Level, a.names, b.names)
				}
			}
		}
	})
}

func within(a, b []string) bool {
	m := make(map[string]bool)
	for _, n := range b {
		m[n] = true
	}
	for _, n := range a {
		if !m[n] {
			return false
		}
	}
	return true
}

var registryProp = &zcore.Prop{ID: "C11", Gen: genRegPlan, New: func() any { return &regPlan{} }, Run: runRegPlan,
	Quick: 12000, Thorough: 800000, Length: 300, MaxPts: 400_000,
	Rule: "plans of concurrent calls that make, find and list warnings, with few names so that calls compete; package variables are reset before every execution",
	Real: []string{"infra/warning"},
	Stub: []string{"default slog handler", "goroutine scheduler"}}
