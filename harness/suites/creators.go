package zsuites

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"maps"
	"slices"
	"strings"
	"sync"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/phsymzerolog"
	"github.com/madkins23/go-slog/creator/phusluslog"
	"github.com/madkins23/go-slog/creator/samberlogrus"
	"github.com/madkins23/go-slog/creator/samberzap"
	"github.com/madkins23/go-slog/creator/samberzerolog"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/creator/veqryndedup"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
	"github.com/madkins23/go-slog/replace"
)

// maker is a creator and what is known of its handlers.
type maker struct {
	name    string
	make    func() infra.Creator
	own     bool // safe for concurrent use with any writer, respects ReplaceAttr and all levels
	dynamic bool // respects a level that changes
}

var makers = []maker{
	{"madkins/flash", madkinsflash.Creator, true, true},
	{"madkins/replattr", madkinsreplattr.Creator, true, true},
	{"madkins/sloggy", madkinssloggy.Creator, true, true},
	{"slog/JSONHandler", slogjson.Creator, true, true},
	{"veqryn/dedup/Append", dedupMaker(veqryndedup.Append), false, true},
	{"veqryn/dedup/Ignore", dedupMaker(veqryndedup.Ignore), false, true},
	{"veqryn/dedup/Increment", dedupMaker(veqryndedup.Increment), false, true},
	{"veqryn/dedup/Overwrite", dedupMaker(veqryndedup.Overwrite), false, true},
	{"phsym/zeroslog", phsymzerolog.Creator, false, true},
	{"phuslu/slog", phusluslog.Creator, false, true},
	{"samber/slog-logrus", samberlogrus.Creator, false, false},
	{"samber/slog-zap", samberzap.Creator, false, false},
	{"samber/slog-zerolog", samberzerolog.Creator, false, true},
}

func dedupMaker(m veqryndedup.Mode) func() infra.Creator {
	return func() infra.Creator { return veqryndedup.Creator(m) }
}

type crRecord struct {
	Level int  `json:"level"`
	With  bool `json:"with"`
	Group bool `json:"group"`
	Dup   bool `json:"dup"` // an attribute named twice
	N     int  `json:"n"`
}

type crClient struct {
	Maker   int        `json:"maker"`
	Logger  bool       `json:"logger"`  // NewLogger instead of NewHandler
	Options int        `json:"options"` // which of the options
	Share   int        `json:"share"`   // the client whose handler is used, if of this maker; -1: an own one
	Phase1  []crRecord `json:"phase1"`
	Phase2  []crRecord `json:"phase2"`
}

type crOptions struct {
	Level   int   `json:"level"`
	Kind    int   `json:"kind"`    // 0 Level, 1 LevelVar, 2 as a function's result, 3 nil
	Change  int   `json:"change"`  // to which the LevelVar is set between the phases
	Source  bool  `json:"source"`  // AddSource
	Replace int   `json:"replace"` // ReplaceAttr
	Custom  []int `json:"custom"`
	Nil     bool  `json:"nil"` // where nothing is set, no options at all
}

type crPlan struct {
	Options []crOptions `json:"options"`
	Clients []crClient  `json:"clients"`
	Custom  int         `json:"custom"` // which functions a Creator made by hand has
	Slow    bool        `json:"slow"`
	One     bool        `json:"one"`    // one Creator for all handlers of its kind
	Remake  bool        `json:"remake"` // the options are changed, and all handlers made anew, between the phases
}

func genCrRecords(r *zcore.Rand, max int) []crRecord {
	var out []crRecord
	for i := r.Range(0, max); i > 0; i-- {
		out = append(out, crRecord{Level: zcore.Pick(r, -4, 0, 4, 8, 0, 4, -4, 8, 2, 6, -1, 5, 12, -8), With: r.P(0.3), Group: r.P(0.25), Dup: r.P(0.25), N: r.N(1000)})
	}
	return out
}

func genCrPlan(r *zcore.Rand) any {
	p := &crPlan{Custom: r.Range(1, 3), Slow: r.P(0.5), One: r.P(0.6), Remake: r.P(0.4)}
	for i := r.Range(1, 3); i > 0; i-- {
		p.Options = append(p.Options, crOptions{Level: zcore.Pick(r, -4, 0, 4, 8, 0, 2, 5), Kind: r.N(4), Change: zcore.Pick(r, -4, 0, 4, 8, 6), Source: r.P(0.3), Replace: r.N(3), Nil: r.P(0.4)})
		if o := &p.Options[len(p.Options)-1]; o.Nil && r.P(0.7) {
			o.Kind, o.Source, o.Replace = 3, false, 0
		}
	}
	favour := r.N(len(makers))
	for i := r.Range(1, 4); i > 0; i-- {
		c := crClient{Maker: r.N(len(makers)), Logger: r.P(0.5), Options: r.N(len(p.Options)), Share: -1, Phase1: genCrRecords(r, 4), Phase2: genCrRecords(r, 3)}
		if r.P(0.5) {
			c.Maker = favour
		}
		if r.P(0.3) {
			c.Maker = r.N(4)
		}
		if n := len(p.Clients); n > 0 && r.P(0.3) {
			c.Share = r.N(n)
		}
		std := !makers[c.Maker].own
		if c.Share >= 0 {
			std = std || !makers[p.Clients[c.Share].Maker].own
		}
		for _, recs := range [][]crRecord{c.Phase1, c.Phase2} {
			for i := range recs {
				if std { // the libraries behind the handlers know four levels
					recs[i].Level = max(-4, min(8, recs[i].Level&^3))
				}
			}
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

func (o *crOptions) make(v *slog.LevelVar) *slog.HandlerOptions {
	out := &slog.HandlerOptions{AddSource: o.Source}
	switch o.Kind {
	case 0:
		out.Level = slog.Level(o.Level)
	case 1:
		v.Set(slog.Level(o.Level))
		out.Level = v
	case 2:
		out = infra.LevelOptions(slog.Level(o.Level))
		out.AddSource = o.Source
	}
	switch o.Replace {
	case 1:
		out.ReplaceAttr = replace.ChangeKey("tag", "label", false, nil)
	case 2:
		out.ReplaceAttr = replace.ChangeCase("tag", replace.CaseUpper, false, nil)
	}
	return out
}

// crLog is the effect a record has: it is the same for all handlers but for how it looks.
func (rec *crRecord) log(h slog.Handler, client, i int) {
	ctx := context.Background()
	if !h.Enabled(ctx, slog.Level(rec.Level)) {
		return
	}
	if rec.With {
		h = h.WithAttrs([]slog.Attr{slog.String("with", fmt.Sprint("w", rec.N))})
	}
	if rec.Group {
		h = h.WithGroup("grp")
	}
	r := slog.NewRecord(rwTime, slog.Level(rec.Level), fmt.Sprintf("message %d of %d", i, client), 0)
	r.AddAttrs(slog.String("tag", fmt.Sprintf("Tag %d.%d.%d", client, i, rec.N)))
	if rec.Dup {
		r.AddAttrs(slog.String("twice", "first"), slog.String("twice", "second"))
	}
	_ = h.Handle(ctx, r)
}

func runCrPlan(pl any, x *zcore.Exec) {
	p := pl.(*crPlan)
	checkCreator(p.Custom, x)
	vars := make([]slog.LevelVar, len(p.Options))
	opts := make([]*slog.HandlerOptions, len(p.Options))
	before := make([]string, len(p.Options))
	for i := range p.Options {
		opts[i] = p.Options[i].make(&vars[i])
		before[i] = fmt.Sprintf("%v %v %v", opts[i].AddSource, opts[i].Level, opts[i].ReplaceAttr != nil)
	}
	remade := false
	level := func(c *crClient) slog.Level {
		switch o := p.Options[c.Options]; o.Kind {
		case 3:
			if makers[c.Maker].name == "samber/slog-zerolog" {
				return slog.LevelDebug // as its warning DefaultLevel says
			}
			return slog.LevelInfo
		case 1:
			return vars[c.Options].Level()
		default:
			if remade {
				return slog.Level(o.Change)
			}
			return slog.Level(o.Level)
		}
	}
	dests := make([]*zsim.Dest, len(p.Clients))
	handlers := make([]slog.Handler, len(p.Clients))
	owner := make([]int, len(p.Clients))
	ready := make([]sync.WaitGroup, len(p.Clients))
	for c := range ready {
		ready[c].Add(1)
	}
	eff := make([]crClient, len(p.Clients)) // what each client's handler was made with
	for c := range p.Clients {
		dests[c], owner[c], eff[c] = &zsim.Dest{Slow: p.Slow}, c, p.Clients[c]
		if sh := p.Clients[c].Share; sh >= 0 && owner[sh] == sh && makers[p.Clients[sh].Maker].own {
			owner[c], eff[c] = sh, p.Clients[sh]
		}
	}
	expect := make([]map[string]*crRecord, len(p.Clients)) // owner -> message -> record
	for c := range expect {
		expect[c] = make(map[string]*crRecord)
	}
	creators := make(map[int]*infra.Creator)
	for c := range p.Clients {
		if m := p.Clients[c].Maker; creators[m] == nil {
			cr := makers[m].make()
			creators[m] = &cr
		}
	}
	run := func(phase int) bool {
		for c := range ready {
			if owner[c] == c && phase == 2 && p.Remake {
				ready[c].Add(1)
			}
		}
		s := x.Sim()
		for c := range p.Clients {
			recs := p.Clients[c].Phase1
			if phase == 2 {
				recs = p.Clients[c].Phase2
			}
			s.Spawn("client", func() {
				if (phase == 1 || p.Remake) && owner[c] == c {
					m := makers[p.Clients[c].Maker]
					cr := creators[p.Clients[c].Maker]
					if !p.One {
						c := m.make()
						cr = &c
					}
					if cr.Name() != m.name {
						x.Fail("wrong-name", "%q instead of %q", cr.Name(), m.name)
					}
					o := opts[p.Clients[c].Options]
					if how := &p.Options[p.Clients[c].Options]; m.own && how.Nil && how.Kind == 3 && !how.Source && how.Replace == 0 {
						o = nil
					}
					if p.Clients[c].Logger {
						handlers[c] = cr.NewLogger(dests[c], o).Handler()
					} else {
						handlers[c] = cr.NewHandler(dests[c], o)
					}
					ready[c].Done()
				}
				if owner[c] != c {
					ready[owner[c]].Wait()
				}
				for i := range recs {
					recs[i].log(handlers[owner[c]], c, phase*100+i)
				}
			})
		}
		for c := range p.Clients {
			recs := p.Clients[c].Phase1
			if phase == 2 {
				recs = p.Clients[c].Phase2
			}
			for i := range recs {
				if slog.Level(recs[i].Level) >= level(&eff[c]) {
					expect[owner[c]][fmt.Sprintf("message %d of %d", phase*100+i, c)] = &recs[i]
				}
			}
		}
		return x.RunSim(s)
	}
	if !run(1) {
		return
	}
	changed := make(map[int]bool)
	for i := range p.Options {
		if p.Options[i].Kind == 1 {
			for c := range p.Clients {
				changed[c] = changed[c] || eff[c].Options == i && p.Options[i].Change != p.Options[i].Level
			}
			vars[i].Set(slog.Level(p.Options[i].Change))
		} else if p.Remake && p.Options[i].Kind != 3 {
			opts[i].Level = slog.Level(p.Options[i].Change)
		}
	}
	for c := range p.Clients {
		if changed[c] && !p.Remake && !makers[eff[c].Maker].dynamic {
			p2 := p.Clients[c].Phase2
			p.Clients[c].Phase2 = nil
			defer func() { p.Clients[c].Phase2 = p2 }()
		}
	}
	remade = p.Remake
	if !run(2) {
		return
	}
	for i := range opts {
		if p.Remake && p.Options[i].Kind != 1 && p.Options[i].Kind != 3 {
			if opts[i].Level != slog.Level(p.Options[i].Change) {
				x.Fail("options-changed", "the level became %v", opts[i].Level)
			}
			opts[i].Level = slog.Level(p.Options[i].Level)
		}
		if p.Options[i].Kind == 1 {
			vars[i].Set(slog.Level(p.Options[i].Level))
		}
		if now := fmt.Sprintf("%v %v %v", opts[i].AddSource, opts[i].Level, opts[i].ReplaceAttr != nil); now != before[i] {
			x.Fail("options-changed", "%s became %s", before[i], now)
		}
	}
	for c := range p.Clients {
		if owner[c] != c {
			if dests[c].Stream != nil {
				x.Fail("wrong-writer", "%q was written where nobody logged", dests[c].Stream)
			}
			continue
		}
		m := makers[p.Clients[c].Maker]
		o := &p.Options[p.Clients[c].Options]
		x.Count("creators used", 1)
		if m.own {
			for _, ch := range dests[c].Chunks {
				if ch.Overlap {
					x.Fail("overlap", "%s: two Writes at once", m.name)
				}
			}
		}
		for _, line := range bytes.SplitAfter(dests[c].Stream, []byte("\n")) {
			if len(line) == 0 {
				continue
			}
			x.Note(string(line))
			var got map[string]any
			if err := json.Unmarshal(line, &got); err != nil || line[len(line)-1] != '\n' {
				x.Fail("bad-line", "%s wrote %q: %v", m.name, line, err)
				continue
			}
			msg, _ := got["msg"].(string)
			if msg == "" {
				msg, _ = got["message"].(string)
			}
			rec := expect[c][msg]
			if rec == nil {
				x.Fail("wrong-record", "%s wrote %q, which was not logged or not enabled there", m.name, line)
				continue
			}
			delete(expect[c], msg)
			x.Count("records", 1)
			checkCrLine(&m, o, rec, msg, got, line, x)
			if m.name == "madkins/replattr" {
				compareFlash(&m, o, rec, msg, line, x)
			}
		}
		if len(expect[c]) > 0 {
			x.Fail("lost", "%s (%+v): %d records were not written: %v", m.name, *o, len(expect[c]), slices.Sorted(maps.Keys(expect[c])))
		}
	}
}

func checkCrLine(m *maker, o *crOptions, rec *crRecord, msg string, got map[string]any, line []byte, x *zcore.Exec) {
	lvl := slog.Level(rec.Level)
	if txt, _ := got["level"].(string); m.own && txt != lvl.String() || (rec.Level == 0 || rec.Level == 4 || rec.Level == 8 || rec.Level == -4) && !strings.HasPrefix(strings.ToUpper(txt)+"ING", lvl.String()) {
		x.Fail("wrong-level", "%s wrote %q for level %v", m.name, line, lvl)
	}
	if w, _ := got["with"].(string); rec.With && w != fmt.Sprint("w", rec.N) {
		x.Fail("wrong-attr", "%s wrote %q, which lacks with=w%d", m.name, line, rec.N)
	}
	at := got
	if rec.Group {
		at, _ = got["grp"].(map[string]any)
	}
	var client, i int
	_, _ = fmt.Sscanf(msg, "message %d of %d", &i, &client)
	key, val := "tag", fmt.Sprintf("Tag %d.%d.%d", client, i, rec.N)
	if m.own || m.name == "phuslu/slog" || strings.HasPrefix(m.name, "veqryn") {
		switch o.Replace {
		case 1:
			key = "label"
		case 2:
			val = strings.ToUpper(val)
		}
	} else {
		for _, k := range []string{"label", "tag"} {
			if _, ok := at[k]; ok {
				key = k
			}
		}
		if s, ok := at[key].(string); ok && strings.EqualFold(s, val) {
			val = s
		}
	}
	if at[key] != val {
		x.Fail("wrong-attr", "%s wrote %q instead of %s=%s", m.name, line, key, val)
	}
	if rec.Dup && strings.HasPrefix(m.name, "veqryn") {
		want := map[string]string{"Append": `[first second] <nil>`, "Ignore": `first <nil>`, "Increment": `first second`, "Overwrite": `second <nil>`}
		if s := fmt.Sprint(at["twice"], " ", at["twice#01"]); s != want[m.name[len("veqryn/dedup/"):]] {
			x.Fail("wrong-duplicates", "%s made %s of it: %s", m.name, s, line)
		}
	}
}

// compareFlash: madkins/replattr is madkins/flash with names and levels changed and changed back.
func compareFlash(m *maker, o *crOptions, rec *crRecord, msg string, line []byte, x *zcore.Exec) {
	var client, i int
	_, _ = fmt.Sscanf(msg, "message %d of %d", &i, &client)
	var b bytes.Buffer
	var v slog.LevelVar
	f := madkinsflash.Creator()
	opts := o.make(&v)
	opts.Level = slog.Level(-100)
	rec.log(f.NewHandler(&b, opts), client, i)
	if b.String() != string(line) {
		x.Fail("not-flash", "%s wrote %q where madkins/flash writes %q", m.name, line, b.String())
	}
}

// checkCreator: a creator uses the functions it was made of.
func checkCreator(custom int, x *zcore.Exec) {
	var called []string
	var hf infra.CreateHandlerFn
	var lf infra.CreateLoggerFn
	mine := slog.NewJSONHandler(io.Discard, nil)
	if custom&1 != 0 {
		hf = func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
			called = append(called, fmt.Sprintf("handler %p %p", w, o))
			return mine
		}
	}
	log := slog.New(mine)
	if custom&2 != 0 {
		lf = func(w io.Writer, o *slog.HandlerOptions) *slog.Logger {
			called = append(called, fmt.Sprintf("logger %p %p", w, o))
			return log
		}
	}
	c := infra.NewCreator("name", hf, lf, "sum", infra.Links{"a": "b"})
	w, o := &bytes.Buffer{}, infra.SimpleOptions()
	h, l := c.NewHandler(w, o), c.NewLogger(w, o)
	var want []string
	if hf != nil {
		want = append(want, fmt.Sprintf("handler %p %p", w, o))
	}
	if lf != nil {
		want = append(want, fmt.Sprintf("logger %p %p", w, o))
	} else {
		want = append(want, fmt.Sprintf("handler %p %p", w, o))
	}
	if fmt.Sprint(called) != fmt.Sprint(want) || (h == nil) != (hf == nil) || c.CanMakeHandler() != (hf != nil) || l == nil || l.Handler() != slog.Handler(mine) {
		x.Fail("wrong-creator", "functions %d: called %v instead of %v", custom, called, want)
	}
	hf = func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }
	if lf = nil; custom&2 != 0 {
		lf = func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(slog.NewJSONHandler(w, o)) }
	}
	c = infra.NewCreator("name", hf, lf, "sum", infra.Links{"a": "b"})
	ctx := context.Background()
	o.Level = slog.LevelInfo
	h1, l1 := c.NewHandler(w, o), c.NewLogger(w, o)
	o.Level = slog.LevelError
	h2, l2 := c.NewHandler(w, o), c.NewLogger(w, o)
	if !h1.Enabled(ctx, 0) || !l1.Enabled(ctx, 0) || h2.Enabled(ctx, 0) || l2.Enabled(ctx, 0) {
		x.Fail("wrong-creator", "options changed between two handlers: the first or the second has those of the other")
	}
	if c.Name() != "name" || c.Summary() != "sum" || !c.HasSummary() || !c.HasLinks() || c.Links()["a"] != "b" {
		x.Fail("wrong-creator", "name, summary or links")
	}
}

var creatorProp = &zcore.Prop{ID: "C22", Gen: genCrPlan, New: func() any { return &crPlan{} }, Run: runCrPlan,
	Quick: 12000, Thorough: 1000000, Length: 150, MaxPts: 400_000,
	Rule:   "clients that at the same time make loggers and handlers with the creators of go-slog, from options they share, and log through them, before and after a change of level; handlers of go-slog itself are also shared between clients",
	Real:   []string{"creator/*", "infra", "replace", "handlers/flash", "handlers/sloggy", "log/slog", "the logging libraries behind the creators"},
	Stub:   []string{"destinations", "goroutine scheduler"},
	Assume: []string{"third-party handlers are used by one thread each", "creators whose modules are not installed here (chanchal/zaphandler, svcrunner/jsonlog, snqk/meld) do not take part", "levels of samber/slog-logrus and samber/slog-zap do not change"}}
