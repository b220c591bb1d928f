package zsuites

import (
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
	vtests "github.com/madkins23/go-slog/verify/tests"
)

// deviation is a way to break slog's rules, and the warning that stands for it.
type deviation struct {
	name     string
	variants int
	warn     *warning.Warning   // declared with WarnOnly; nil: there is none, the suite must fail
	also     []*warning.Warning // warnings that stand for consequences
	hard     string             // tests that fail though all that is declared
}

func deviations() []deviation {
	list := func(w ...*warning.Warning) []*warning.Warning { return w }
	st, rg := warning.SlogTest, warning.ReplAttrGroup
	return []deviation{
		{"levelLower", 1, warning.LevelCase, nil, "TestReplaceAttrFnMulti"},
		{"message", 1, warning.MessageKey, list(st), "TestReplaceAttrBasic TestReplaceAttrFnMulti TestReplaceAttrGroup"},
		{"dups", 1, warning.Duplicates, nil, ""},
		{"emptyAttr", 1, warning.EmptyAttributes, list(st), "TestReplaceAttrBasic TestReplaceAttrFnMulti TestReplaceAttrFnRemoveTime"},
		{"noEmptyName", 1, warning.NoEmptyName, nil, "TestReplaceAttrFnRemoveEmptyKey"},
		{"noNil", 1, warning.NoNilValue, nil, ""},
		{"withGroupEmpty", 1, warning.WithGroupEmpty, list(warning.GroupEmpty, warning.WithGroup, st), ""},
		{"groupInline", 1, warning.GroupInline, list(st), ""},
		{"withGroupTop", 1, warning.GroupWithTop, list(warning.WithGroup, st, warning.Mismatch, rg), "TestReplaceAttrFnMulti TestReplaceAttrGroup"},
		{"siblings", 1, warning.WithGroup, list(st, warning.Mismatch, rg), "TestReplaceAttrFnMulti"},
		{"resolve", 1, warning.Resolver, list(st), ""},
		{"source", 6, warning.SourceKey, nil, "TestReplaceAttrBasic"},
		{"caller", 1, warning.SourceCaller, nil, "TestReplaceAttrBasic"},
		{"zeroPC", 1, warning.ZeroPC, nil, ""},
		{"zeroTime", 1, warning.ZeroTime, list(st), ""},
		{"timeMillis", 1, warning.TimeMillis, nil, ""},
		{"timeSeconds", 1, warning.TimeSeconds, nil, ""},
		{"durString", 1, warning.DurationString, nil, ""},
		{"durSeconds", 1, warning.DurationSeconds, nil, ""},
		{"durMillis", 1, warning.DurationMillis, nil, ""},
		{"groupDuration", 1, warning.GroupDuration, list(warning.DurationMillis), ""},
		{"stringAny", 1, warning.StringAny, nil, ""},
		{"noReplace", 1, warning.NoReplAttr, nil, ""},
		{"noReplBasic", 1, warning.NoReplAttrBasic, nil, ""},
		{"replGroup", 2, rg, nil, "TestReplaceAttrFnMulti TestReplaceAttrGroup"},
		{"canceled", 1, warning.CanceledContext, nil, ""},
		{"defaultLevel", 3, warning.DefaultLevel, nil, ""},
		{"levelVar", 1, warning.LevelVar, nil, ""},
		{"levelMath", 2, warning.LevelMath, nil, ""},
		{"groupMsgTop", 1, warning.GroupAttrMsgTop, list(rg), "TestReplaceAttrGroup"},
		{"levelWrong", 1, nil, nil, ""},
		{"enabledAll", 1, nil, nil, ""},
		{"parent", 1, nil, nil, ""},
		{"withLost", 2, nil, nil, ""},
		{"withGroupLost", 1, nil, nil, ""},
		{"noTime", 2, nil, nil, ""},
		{"noLevel", 1, nil, nil, ""},
		{"msgCut", 1, nil, nil, ""},
		{"numString", 1, nil, nil, ""},
		{"unsigned", 1, nil, nil, ""},
		{"floatShort", 1, nil, nil, ""},
		{"boolString", 1, nil, nil, ""},
		{"escape", 1, nil, nil, ""},
		{"replNotTop", 1, nil, nil, ""},
	}
}

// verdict is what a run of the suite says.
type verdict struct {
	failed   map[string]string // test -> its log
	warnings []*warning.Instances
	tests    int
}

// runSuite runs every test of the verification suite, from a simulated thread.
func runSuite(creator infra.Creator, warnOnly []*warning.Warning, order func(int) []int, watch bool, x *zcore.Exec) *verdict {
	s := newVerify(creator)
	for _, w := range warnOnly {
		s.WarnOnly(w)
	}
	return runTests(s, order, watch, x)
}

func newVerify(creator infra.Creator) *vtests.SlogTestSuite { return vtests.NewSlogTestSuite(creator) }

// vfMethods are the tests of the suite.
func vfMethods() (methods []reflect.Method) {
	typ := reflect.TypeFor[*vtests.SlogTestSuite]()
	for i := 0; i < typ.NumMethod(); i++ {
		if m := typ.Method(i); strings.HasPrefix(m.Name, "Test") && m.Type.NumIn() == 1 && m.Type.NumOut() == 0 {
			methods = append(methods, m)
		}
	}
	return methods
}

// vfTests are their names.
var vfTests = func() (names []string) {
	for _, m := range vfMethods() {
		names = append(names, m.Name)
	}
	return names
}()

func runTests(s *vtests.SlogTestSuite, order func(int) []int, watch bool, x *zcore.Exec) *verdict {
	v := &verdict{failed: make(map[string]string)}
	s.SetupSuite()
	methods := vfMethods()
	given := make(map[string]int)
	for _, i := range order(len(methods)) {
		m := methods[i]
		t := &testing.T{}
		s.SetT(t)
		s.SetupTest()
		var wg sync.WaitGroup
		wg.Add(1)
		var panicked any
		zsim.Go(func() {
			defer wg.Done()
			defer func() { panicked = recover() }()
			m.Func.Call([]reflect.Value{reflect.ValueOf(s)})
		})
		wg.Wait()
		if panicked != nil {
			x.Fail("panic", "%s panicked: %v", m.Name, panicked)
		}
		if t.Failed() {
			v.failed[m.Name] = t.ZsimOutput()
		}
		v.tests++
		if !watch {
			continue
		}
		for _, w := range s.GetWarnings() {
			if w.Name == warning.Unused.Name { // those of warnings that came since are taken out
				continue
			}
			for _, d := range w.Data[min(given[w.Name], len(w.Data)):] {
				if d.Function != m.Name {
					x.Fail("wrong-function", "a warning %s of %s is said to be of %q", w.Name, m.Name, d.Function)
				}
			}
			given[w.Name] = len(w.Data)
		}
	}
	v.warnings = s.GetWarnings()
	return v
}

// extras: a handler that follows all rules, with each warning declared.
func extras() (out []deviation) {
	for _, list := range [][]*warning.Warning{warning.Required(), warning.Implied(), warning.Suggested()} {
		for _, w := range list {
			out = append(out, deviation{"none:" + w.Name, 1, w, nil, ""})
		}
	}
	return out
}

// Explore prints what the suite makes of each deviation.
func Explore() {
	for _, d := range append(deviations(), extras()...) {
		for i := 0; i < d.variants; i++ {
			for _, declared := range []bool{false, true} {
				if declared && d.warn == nil {
					continue
				}
				var w []*warning.Warning
				if declared {
					w = append(append(w, d.warn), d.also...)
				}
				x := &zcore.Exec{Counts: map[string]int{}}
				s := x.Sim()
				var v *verdict
				s.Spawn("main", func() {
					v = runSuite(simCreator(Dev{d.name: i}, 0, 1), w, func(n int) []int {
						out := make([]int, n)
						for i := range out {
							out[i] = i
						}
						return out
					}, true, x)
				})
				x.RunSim(s)
				var f []string
				for n := range v.failed {
					f = append(f, n)
				}
				sort.Strings(f)
				fmt.Println(d.name, i, "declared", declared, "failed", f, x.Viols)
				if declared {
					for _, n := range f {
						fmt.Println("      ", n, strings.Join(strings.Fields(v.failed[n]), " "))
					}
				}
				for _, w := range v.warnings {
					fmt.Print("   ", w.Name, w.Count)
					for _, d := range w.Data {
						fmt.Printf(" %s/%s", d.Function, d.Text)
					}
					fmt.Println()
				}
			}
		}
	}
}

func simCreator(dev Dev, sleep time.Duration, parts int) infra.Creator {
	return infra.NewCreator("sim/handler", func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		h := newSimHandler(w, o, dev)
		h.sleep, h.parts = sleep, parts
		return h
	}, nil, "", nil)
}
