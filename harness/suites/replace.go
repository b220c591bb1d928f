package zsuites

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"slices"
	"strings"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
	"github.com/madkins23/go-slog/replace"
)

// rwSpec describes a ReplaceAttr function made by package replace.
type rwSpec struct {
	Kind  string   `json:"kind"` // key, case, value, set, remove, multi, user
	Key   string   `json:"key"`
	To    string   `json:"to"`
	Case  int      `json:"case"`
	CI    bool     `json:"ci"`
	Check string   `json:"check"` // nil, top, odd, or =NAME
	Sub   []rwSpec `json:"sub"`
}

// rwAttr is an attribute in a stack of groups.
type rwAttr struct {
	Key  string `json:"key"`
	Kind int    `json:"kind"`
	N    int    `json:"n"`
}

// rwRecord is a record with what has been set before: groups[i] opens after with[i].
type rwRecord struct {
	Level  int        `json:"level"`
	Groups []string   `json:"groups"`
	With   [][]rwAttr `json:"with"`
	Own    []rwAttr   `json:"own"`
}

type rwPlan struct {
	Handler string       `json:"handler"` // direct, json, flash, sloggy
	Source  bool         `json:"source"`
	Yield   bool         `json:"yield"`
	Fn      rwSpec       `json:"fn"`
	Clients [][]rwRecord `json:"clients"`
}

var rwKeys = []string{"alpha", "Alpha", "ALPHA", "bravo", "lvl", "message", "level", "msg", "time", "source", "", "étage", "Étage", "k", "\u212a", "a b", "alphabet",
	"s", "\u017f", "S", "\u00df", "SS", "K", "\u0130", "i", "\u03c3", "\u03c2", "alpha ", "group.alpha", "Message", "Level"}
var rwGroups = []string{"group", "Group", "sub", "group1", "", "alpha", "a.b", "b", "a", "sub.group", "group.sub", "a/b", "subgroup"}

// rwNames are the names that a plan picks from: few, so that they meet.
type rwNames struct{ keys, groups []string }

func (n *rwNames) key(r *zcore.Rand) string   { return n.keys[r.N(len(n.keys))] }
func (n *rwNames) group(r *zcore.Rand) string { return n.groups[r.N(len(n.groups))] }

func genRwNames(r *zcore.Rand) *rwNames {
	n := &rwNames{keys: rwKeys, groups: rwGroups}
	if r.P(0.7) {
		n = &rwNames{}
		for i := 0; i < 5; i++ {
			at := r.N(len(rwKeys))
			n.keys = append(n.keys, rwKeys[at])
			if r.P(0.3) && at+1 < len(rwKeys) { // the next is often like it
				n.keys = append(n.keys, rwKeys[at+1])
			}
		}
		for i := 0; i < 4; i++ {
			n.groups = append(n.groups, rwGroups[r.N(len(rwGroups))])
		}
	}
	return n
}

func genRwSpec(r *zcore.Rand, n *rwNames, depth int) rwSpec {
	s := rwSpec{Kind: zcore.Pick(r, "key", "key", "case", "case", "value", "set", "remove", "remove", "user", "multi", "multi"),
		Key: n.key(r), To: n.key(r), Case: r.N(5), CI: r.P(0.4),
		Check: zcore.Pick(r, "nil", "nil", "top", "top", "odd", "=")}
	if s.Check == "=" {
		s.Check += n.group(r)
	}
	if depth > 2 && s.Kind == "multi" {
		s.Kind = "key"
	}
	if s.Kind == "multi" {
		for i := r.N(5); i > 0; i-- {
			s.Sub = append(s.Sub, genRwSpec(r, n, depth+1))
		}
	}
	return s
}

func genRwAttrs(r *zcore.Rand, n *rwNames, max int) []rwAttr {
	var out []rwAttr
	for i := r.N(max + 1); i > 0; i-- {
		out = append(out, rwAttr{Key: n.key(r), Kind: r.N(10), N: r.N(1000)})
	}
	return out
}

func genRwPlan(r *zcore.Rand) any {
	p := &rwPlan{Handler: zcore.Pick(r, "direct", "direct", "json", "flash", "flash", "sloggy"), Source: r.P(0.3), Yield: r.P(0.7)}
	n := genRwNames(r)
	p.Fn = rwSpec{Kind: "multi"}
	for i := r.Range(1, 5); i > 0; i-- {
		p.Fn.Sub = append(p.Fn.Sub, genRwSpec(r, n, 0))
	}
	if len(p.Fn.Sub) == 1 && r.P(0.5) {
		p.Fn = p.Fn.Sub[0]
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var c []rwRecord
		for j := r.Range(1, 4); j > 0; j-- {
			rec := rwRecord{Level: r.Range(-6, 10), Own: genRwAttrs(r, n, 5)}
			for g := r.N(4); g > 0; g-- {
				rec.Groups = append(rec.Groups, n.group(r))
				rec.With = append(rec.With, genRwAttrs(r, n, 2))
			}
			c = append(c, rec)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

type rwText struct{ s string }

func (t rwText) String() string { return t.s }

func (a rwAttr) attr() slog.Attr {
	var v slog.Value
	switch a.Kind {
	case 0, 1, 2:
		v = slog.StringValue(fmt.Sprintf("MiXeD é %d", a.N))
	case 3:
		v = slog.IntValue(a.N)
	case 4:
		v = slog.BoolValue(a.N%2 == 0)
	case 5:
		v = slog.AnyValue(nil)
	case 6:
		v = slog.AnyValue([]string{"A", "b"})
	case 7:
		v = slog.AnyValue(slog.Level(a.N%13 - 4))
	case 8:
		v = slog.DurationValue(time.Duration(a.N) * time.Second)
	default:
		v = slog.Float64Value(float64(a.N) / 8)
	}
	return slog.Attr{Key: a.Key, Value: v}
}

func rwList(list []rwAttr) []slog.Attr {
	out := make([]slog.Attr, len(list))
	for i, a := range list {
		out[i] = a.attr()
	}
	return out
}

// rwReal makes the function of package replace.
func (s *rwSpec) rwReal(yield func()) infra.AttrFn {
	var check replace.GroupCheckFn
	switch {
	case s.Check == "top":
		check = replace.TopCheck
	case s.Check == "odd":
		check = func(g []string) bool { yield(); return len(g)%2 == 1 }
	case strings.HasPrefix(s.Check, "="):
		check = replace.Current(s.Check[1:])
	}
	switch s.Kind {
	case "key":
		return replace.ChangeKey(s.Key, s.To, s.CI, check)
	case "case":
		return replace.ChangeCase(s.Key, replace.ChangeCases(s.Case), s.CI, check)
	case "value":
		return replace.ChangeValue(s.Key, func(v slog.Value) slog.Value {
			yield()
			return slog.StringValue(v.String() + "+" + s.To)
		}, s.CI, check)
	case "set":
		return replace.ChangeValue(s.Key, replace.SetValueTo(slog.StringValue("set "+s.To)), s.CI, check)
	case "remove":
		return replace.RemoveKey(s.Key, s.CI, check)
	case "multi":
		fns := make([]infra.AttrFn, len(s.Sub))
		for i := range s.Sub {
			fns[i] = s.Sub[i].rwReal(yield)
		}
		return replace.Multiple(fns...)
	}
	return func(g []string, a slog.Attr) slog.Attr { yield(); return s.rwUser(g, a) }
}

func (s *rwSpec) rwUser(g []string, a slog.Attr) slog.Attr {
	if a.Key == s.Key {
		a.Key = s.To + strings.Join(g, "/")
	}
	return a
}

// rwModel is what the documentation of package replace says.
func (s *rwSpec) rwModel(g []string, a slog.Attr) slog.Attr {
	if s.Kind == "multi" {
		for i := range s.Sub {
			a = s.Sub[i].rwModel(g, a)
			if a.Key == "" && a.Value.Kind() == slog.KindAny && a.Value.Any() == nil {
				return a
			}
		}
		return a
	}
	if s.Kind == "user" {
		return s.rwUser(g, a)
	}
	if !(a.Key == s.Key || s.CI && strings.EqualFold(a.Key, s.Key)) {
		return a
	}
	switch {
	case s.Check == "top" && len(g) != 0, s.Check == "odd" && len(g)%2 == 0,
		strings.HasPrefix(s.Check, "=") && (len(g) == 0 || g[len(g)-1] != s.Check[1:]):
		return a
	}
	switch s.Kind {
	case "key":
		a.Key = s.To
	case "case":
		switch s.Case {
		case 1:
			a.Value = slog.StringValue(strings.ToLower(a.Value.String()))
		case 2:
			a.Value = slog.StringValue(strings.ToUpper(a.Value.String()))
		}
	case "value":
		a.Value = slog.StringValue(a.Value.String() + "+" + s.To)
	case "set":
		a.Value = slog.StringValue("set " + s.To)
	case "remove":
		a = slog.Attr{}
	}
	return a
}

func rwShow(a slog.Attr) string {
	return fmt.Sprintf("%q=%s:%#v", a.Key, a.Value.Kind(), a.Value.Any())
}

func rwHandler(kind string, w io.Writer, o *slog.HandlerOptions) slog.Handler {
	switch kind {
	case "flash":
		return flash.NewHandler(w, o, nil)
	case "sloggy":
		return sloggy.NewHandler(w, o)
	}
	return slog.NewJSONHandler(w, o)
}

var rwTime = time.Date(2024, 2, 29, 12, 30, 15, 123456789, time.UTC)

func (rec *rwRecord) log(h slog.Handler) {
	for i, g := range rec.Groups {
		if len(rec.With[i]) > 0 {
			h = h.WithAttrs(rwList(rec.With[i]))
		}
		if g != "" {
			h = h.WithGroup(g)
		}
	}
	r := slog.NewRecord(rwTime, slog.Level(rec.Level), "Some Message", 0)
	r.AddAttrs(rwList(rec.Own)...)
	_ = h.Handle(context.Background(), r)
}

func runRwPlan(pl any, x *zcore.Exec) {
	p := pl.(*rwPlan)
	old := slog.Default()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	defer slog.SetDefault(old)
	yield := func() {
		if p.Yield && zsim.IsTask() {
			zsim.User(3)
		}
	}
	fn := p.Fn.rwReal(yield)
	s := x.Sim()
	if p.Handler == "direct" {
		for c := range p.Clients {
			s.Spawn("client", func() {
				for i := range p.Clients[c] {
					rec := &p.Clients[c][i]
					groups := append([]string(nil), rec.Groups...)
					for _, a := range rwList(rec.Own) {
						got := fn(groups, a)
						want := p.Fn.rwModel(rec.Groups, a)
						if rwShow(got) != rwShow(want) {
							x.Fail("wrong-attr", "%s in groups %q became %s instead of %s", rwShow(a), rec.Groups, rwShow(got), rwShow(want))
						}
						if rwShow(want) != rwShow(a) {
							x.Count("attributes rewritten", 1)
						}
						x.Note(rwShow(got))
						if !slices.Equal(groups, rec.Groups) {
							x.Fail("groups-changed", "%q became %q", rec.Groups, groups)
						}
						yield()
					}
				}
			})
		}
		x.RunSim(s)
		return
	}
	var dest zsim.Dest
	dest.Slow = p.Yield
	h := rwHandler(p.Handler, &dest, &slog.HandlerOptions{Level: slog.Level(-100), AddSource: p.Source, ReplaceAttr: fn})
	for c := range p.Clients {
		s.Spawn("client", func() {
			for i := range p.Clients[c] {
				p.Clients[c][i].log(h)
			}
		})
	}
	if !x.RunSim(s) {
		return
	}
	lines := make(map[int]string)
	for _, c := range dest.Chunks {
		lines[c.Task] += string(c.Data)
	}
	for c := range p.Clients {
		var want strings.Builder
		mh := rwHandler(p.Handler, &want, &slog.HandlerOptions{Level: slog.Level(-100), AddSource: p.Source, ReplaceAttr: p.Fn.rwModel})
		for i := range p.Clients[c] {
			p.Clients[c][i].log(mh)
		}
		got := lines[c]
		x.Note(got)
		x.Count("records", len(p.Clients[c]))
		if got != want.String() {
			x.Fail("wrong-line", "client %d: %s wrote %s instead of %s", c, p.Handler, got, want.String())
		}
	}
}

var replaceProp = &zcore.Prop{ID: "C21", Gen: genRwPlan, New: func() any { return &rwPlan{} }, Run: runRwPlan,
	Quick: 10000, Thorough: 1500000, Length: 60, MaxPts: 400_000,
	Rule:   "compositions of rewriters from package replace (keys with and without regard to case, cases, values, removal, nested Multiple, all group checks, user functions that block) shared by 1..4 threads that call them or log through JSONHandler, flash or sloggy with them; non-trivial: an attribute was rewritten or a record logged",
	Real:   []string{"replace", "handlers/flash", "handlers/sloggy", "log/slog"},
	Stub:   []string{"destination", "user functions", "goroutine scheduler"},
	Assume: []string{"values are resolved, as they are where slog's handlers call ReplaceAttr"}}
