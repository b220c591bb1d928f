package zhandlers

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log/slog"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// Plan is a workload for a handler.
type Plan struct {
	Handler  string       `json:"handler"` // flash, sloggy
	Opts     Opts         `json:"opts"`
	Handler2 string       `json:"handler2,omitempty"` // of the second handler, if it differs
	Opts2    Opts         `json:"opts2"`
	Derive   []Derivation `json:"derive"`           // loggers that exist before the clients start
	Shared   []Attr       `json:"shared,omitempty"` // attributes made once that everybody logs
	Clients  [][]Op       `json:"clients"`
	Faults   []zsim.Fault `json:"faults"`
	Slow     bool         `json:"slow"`
	TwoDest  bool         `json:"twodest"`  // a second, unrelated handler shares the pools
	NewInRun bool         `json:"newinrun"` // each client makes its own handler from shared options
	// SelfDefault makes the handler its own process's default logger: it gets its own complaints.
	SelfDefault bool `json:"selfdefault"`
	// Reuse: once the handlers are made, the caller changes the options for other uses.
	Reuse bool `json:"reuse,omitempty"`
}

// Opts describes the options of a handler.
type Opts struct {
	Nil     bool   `json:"nil"`
	Level   int    `json:"level"`
	Dynamic bool   `json:"dynamic"`
	NoLevel bool   `json:"nolevel"`
	Source  bool   `json:"source"`
	Replace string `json:"replace"`
	Custom  bool   `json:"custom,omitempty"` // the level is of a type of the caller's own
	// flash only
	Extras     bool   `json:"extras"`
	TimeFormat string `json:"timeformat"`
	Names      bool   `json:"names"`
	Keys       bool   `json:"keys"`
}

// Derivation makes a logger from another.
type Derivation struct {
	From  int    `json:"from"`
	Group string `json:"group"`
	Attrs []Attr `json:"attrs"`
	// NoName asks for WithGroup("").
	NoName bool `json:"noname,omitempty"`
}

// Op is one step of a client.
type Op struct {
	Do    string `json:"do"` // log, derive, level, skew, sleep, new
	L     int    `json:"l"`
	Level int    `json:"level"`
	Msg   string `json:"msg"`
	Attrs []Attr `json:"attrs"`
	Group string `json:"group"`
	T     int64  `json:"t"` // -1: no time
	Src   bool   `json:"src"`

	NoName bool  `json:"noname,omitempty"`
	Ctx    int   `json:"ctx,omitempty"`
	Zone   int   `json:"zone,omitempty"`   // minutes
	Ns     int   `json:"ns,omitempty"`     // added to T
	Shared []int `json:"shared,omitempty"` // which of the shared attributes come last
	Very   bool  `json:"very,omitempty"`   // WithAttrs gets the very slice of shared attributes
	Also   int   `json:"also,omitempty"`   // a second logger that gets the same attributes
}

// cfg is how a handler was made.
type cfg struct {
	kind string
	o    Opts
}

func (p *Plan) cfg(root int) cfg {
	if root == 1 && p.TwoDest && !p.NewInRun && p.Handler2 != "" {
		return cfg{p.Handler2, p.Opts2}
	}
	return cfg{p.Handler, p.Opts}
}

// logger is a handler with its history.
type logger struct {
	h     slog.Handler
	chain []link
	root  int // which handler (destination) it stems from
}

type link struct {
	group string
	attrs []Attr
	id    string // for values that ask
}

// pool is what the shared attributes are, made once.
type pool struct {
	spec   []Attr
	made   []slog.Attr
	before string
}

func (p *pool) dump() string {
	var b strings.Builder
	dump(&b, p.made)
	return b.String()
}

// pick returns some of the shared attributes, and what they are.
func (p *pool) pick(which []int) (spec []Attr, made []slog.Attr) {
	for _, i := range which {
		if i >= 0 && i < len(p.spec) {
			spec, made = append(spec, p.spec[i]), append(made, p.made[i])
		}
	}
	return
}

// done is the record of one operation.
type done struct {
	op         Op
	id         string
	lg         *logger
	enabled    bool
	en0, en1   int // event numbers around Enabled
	called     bool
	err        error
	panicked   bool
	panicText  string
	inner      []string
	setTo      int
	setAt      int
	start, end int
	env        *env
	innerErrs  []error
	src        *node
}

type history struct {
	ops   []*done
	inner []*done
}

// collect is the default logger of the process: it keeps what the handlers complain about.
type collect struct{ n int }

func (c *collect) Enabled(context.Context, slog.Level) bool      { return true }
func (c *collect) Handle(_ context.Context, r slog.Record) error { zsim.User(8); return nil }
func (c *collect) WithAttrs([]slog.Attr) slog.Handler            { return c }
func (c *collect) WithGroup(string) slog.Handler                 { return c }

// asker and fixedLevel are levels of types that no handler knows.
type asker func() slog.Level

func (a asker) Level() slog.Level { return a() }

type fixedLevel struct{ level *int }

func (f fixedLevel) Level() slog.Level { return slog.Level(*f.level) }

func optionsOf(o Opts, lv *slog.LevelVar, rep *replacer) *slog.HandlerOptions {
	if o.Nil {
		return nil
	}
	opts := &slog.HandlerOptions{AddSource: o.Source}
	if o.Dynamic {
		opts.Level = lv
		if o.Custom {
			opts.Level = asker(lv.Level)
		}
	} else if !o.NoLevel {
		opts.Level = slog.Level(o.Level)
		if o.Custom {
			opts.Level = fixedLevel{&o.Level}
		}
	}
	if rep != nil {
		opts.ReplaceAttr = rep.fn
	}
	return opts
}

func extrasOf(o Opts) *flash.Extras {
	if !o.Extras {
		return nil
	}
	e := &flash.Extras{TimeFormat: o.TimeFormat}
	if o.Names {
		e.LevelNames = map[slog.Level]string{slog.LevelInfo: "information", slog.LevelWarn: "ach\"tung", slog.Level(2): "note"}
		if o.Keys { // all of them
			e.LevelNames[slog.LevelDebug], e.LevelNames[slog.LevelError] = "bug", "wrong"
		}
	}
	if o.Keys {
		e.LevelKey, e.MessageKey, e.TimeKey, e.SourceKey = "severity", "text", "when", "where"
	}
	return e
}

func makeHandler(kind string, d *zsim.Dest, opts *slog.HandlerOptions, ex *flash.Extras) slog.Handler {
	if kind == "sloggy" {
		return sloggy.NewHandler(d, opts)
	}
	return flash.NewHandler(d, opts, ex)
}

func (c cfg) model() *model {
	m := &model{timeFormat: time.RFC3339Nano}
	if c.kind == "flash" && c.o.Extras && c.o.TimeFormat != "" {
		m.timeFormat = c.o.TimeFormat
	}
	if c.o.Replace != "" && !c.o.Nil {
		m.replace = &replacer{kind: c.o.Replace}
	}
	return m
}

// made is what a handler is made of.
type made struct {
	cfg
	opts   *slog.HandlerOptions
	extras *flash.Extras
	rep    *replacer
	before string
}

func (c cfg) make(lv *slog.LevelVar) *made {
	m := &made{cfg: c}
	if c.o.Replace != "" {
		m.rep = &replacer{kind: c.o.Replace}
	}
	m.opts = optionsOf(c.o, lv, m.rep)
	if c.kind != "sloggy" {
		m.extras = extrasOf(c.o)
	}
	m.before = m.snapshot()
	return m
}

func (m *made) snapshot() string {
	if m.opts == nil {
		return snapshot(&slog.HandlerOptions{}, m.extras)
	}
	return snapshot(m.opts, m.extras)
}

func (m *made) check(x *zcore.Exec) {
	if after := m.snapshot(); after != m.before {
		x.Fail("options-changed", "making or using a handler changed its arguments: %s became %s", m.before, after)
	}
	if m.rep != nil && m.rep.bad != "" {
		x.Fail("wrong-replace", "ReplaceAttr %s", m.rep.bad)
	}
}

// reuse is what a caller does to its own options when it has made the handlers it wanted of them.
func (m *made) reuse() {
	if o := m.opts; o != nil {
		o.AddSource = !o.AddSource
		o.Level = slog.Level(100)
		o.ReplaceAttr = func([]string, slog.Attr) slog.Attr { return slog.String("not", "mine") }
	}
	if e := m.extras; e != nil {
		for l := range e.LevelNames {
			e.LevelNames[l] = "another"
		}
		if e.LevelNames != nil {
			e.LevelNames[slog.LevelError] = "one more"
		}
		e.TimeFormat, e.LevelKey, e.MessageKey, e.TimeKey, e.SourceKey = "15", "l", "m", "t", "s"
	}
	m.before = m.snapshot()
}

// Run executes a plan and checks everything.
func Run(plan any, x *zcore.Exec) {
	p := plan.(*Plan)
	slog.SetDefault(slog.New(&collect{}))
	lv := &slog.LevelVar{}
	lv.Set(slog.Level(p.Opts.Level))
	all := []*made{p.cfg(0).make(lv)}
	opts, extras := all[0].opts, all[0].extras
	dests := []*zsim.Dest{{Faults: p.Faults, Slow: p.Slow}}
	sh := &pool{spec: p.Shared, made: attrsOf(p.Shared, &env{})}
	sh.before = sh.dump()
	clear(whose[:])
	var shared []*logger
	if !p.NewInRun {
		shared = append(shared, &logger{h: makeHandler(p.Handler, dests[0], opts, extras)})
		if p.SelfDefault {
			slog.SetDefault(slog.New(shared[0].h))
		}
	}
	if p.TwoDest && !p.NewInRun {
		// Another handler: its lines must never show up here, nor the reverse, nor its options.
		dests = append(dests, &zsim.Dest{})
		m := all[0]
		if p.Handler2 != "" {
			m = p.cfg(1).make(lv)
			all = append(all, m)
		}
		shared = append(shared, &logger{h: makeHandler(m.kind, dests[1], m.opts, m.extras), root: 1})
	}
	if !p.NewInRun {
		for _, d := range p.Derive {
			if nl, _ := derive(shared[abs(d.From)%len(shared)], Op{Group: d.Group, Attrs: d.Attrs, NoName: d.NoName}, &env{}, sh); nl != nil {
				shared = append(shared, nl)
			}
		}
	}
	for _, m := range all {
		m.check(x)
	}
	if p.Reuse && !p.NewInRun {
		for _, m := range all {
			m.reuse()
		}
	}
	sim := x.Sim()
	hists := make([]*history, len(p.Clients))
	for c := range p.Clients {
		c := c
		hists[c] = &history{}
		var own *zsim.Dest
		if p.NewInRun {
			own = &zsim.Dest{Slow: p.Slow}
			dests = append(dests, own)
		}
		its := all[0]
		if p.NewInRun && p.Reuse && c > 0 {
			its = p.cfg(0).make(lv) // nobody else's
			all = append(all, its)
		}
		sim.Spawn("client"+strconv.Itoa(c), func() {
			mine := append([]*logger(nil), shared...)
			if p.NewInRun {
				mine = append(mine, &logger{h: makeHandler(p.Handler, own, its.opts, its.extras), root: c + 1})
				if its != all[0] {
					its.reuse()
				}
			}
			client(p, c, mine, lv, hists[c], sh)
		})
	}
	if !x.RunSim(sim) {
		return
	}
	for _, m := range all {
		m.check(x)
	}
	if after := sh.dump(); after != sh.before {
		x.Fail("arguments-changed", "logging changed attributes that belong to the caller: %s became %s", sh.before, after)
	}
	verify(p, x, dests, hists)
}

// snapshot shows caller-owned options.
func snapshot(o *slog.HandlerOptions, e *flash.Extras) string {
	s := fmt.Sprintf("AddSource=%v Level=%v Replace=%v", o.AddSource, o.Level != nil, o.ReplaceAttr != nil)
	if e != nil {
		s += fmt.Sprintf(" TimeFormat=%q LevelKey=%q MessageKey=%q SourceKey=%q TimeKey=%q LevelNames=%v", e.TimeFormat, e.LevelKey, e.MessageKey, e.SourceKey, e.TimeKey, e.LevelNames)
	}
	return s
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// derive calls WithGroup or WithAttrs; it returns nil if that panics.
func derive(from *logger, op Op, e *env, sh *pool) (out *logger, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			out, panicked = nil, r
		}
	}()
	if op.NoName {
		return &logger{h: from.h.WithGroup(""), chain: from.chain, root: from.root}, nil
	}
	sl := slot()
	defer func(was string) { *sl = was }(*sl)
	*sl = e.id
	spec, made := sh.pick(op.Shared)
	l := link{group: op.Group, attrs: append(append([]Attr(nil), op.Attrs...), spec...), id: e.id}
	made = append(attrsOf(op.Attrs, e), made...)
	if op.Very {
		l.attrs, made = sh.spec, sh.made
	}
	chain := append(append([]link(nil), from.chain...), l)
	if op.Group != "" {
		return &logger{h: from.h.WithGroup(op.Group), chain: chain, root: from.root}, nil
	}
	return &logger{h: from.h.WithAttrs(made), chain: chain, root: from.root}, nil
}

func client(p *Plan, c int, mine []*logger, lv *slog.LevelVar, h *history, sh *pool) {
	for i, op := range p.Clients[c] {
		id := fmt.Sprintf("c%d.%d", c, i)
		d := &done{op: op, id: id, start: zsim.Step()}
		h.ops = append(h.ops, d)
		e := &env{id: id}
		d.env = e
		if len(mine) > 0 {
			d.lg = mine[abs(op.L)%len(mine)]
		}
		e.relog = func(inner string) {
			in := &done{op: Op{Do: "log", Level: 8, T: 7}, id: inner, lg: d.lg, start: zsim.Step()}
			h.inner = append(h.inner, in)
			doLog(p, in, nil, nil, sh)
			in.end = zsim.Step()
		}
		switch op.Do {
		case "log":
			if d.lg != nil {
				var also *done
				if op.Also > 0 {
					lg := mine[abs(op.Also)%len(mine)]
					if p.cfg(lg.root).o.Replace != "bare" && p.cfg(d.lg.root).o.Replace != "bare" {
						also = &done{op: op, id: id + "&", lg: lg, start: d.start}
						h.inner = append(h.inner, also)
					}
				}
				doLog(p, d, also, e, sh)
			}
		case "derive":
			if d.lg != nil {
				nl, pan := derive(d.lg, op, e, sh)
				if nl != nil {
					mine = append(mine, nl)
				} else {
					d.panicked, d.panicText = true, fmt.Sprint(pan)
				}
			}
		case "level":
			zsim.Fired("level-change")
			d.setAt = zsim.Step()
			lv.Set(slog.Level(op.Level))
			d.setTo = op.Level
		case "skew":
			zsim.Fired("clock-jump")
			zsim.Skew(time.Duration(op.T) * time.Millisecond)
		case "sleep":
			zsim.Sleep(time.Duration(op.T%1000) * time.Microsecond)
		}
		d.end = zsim.Step()
		zsim.User(9)
	}
}

// contextOf is what the context of a call may be like.
func contextOf(n int) context.Context {
	ctx := context.Background()
	switch n {
	case 1:
		c, cancel := context.WithCancel(ctx)
		cancel()
		return c
	case 2:
		return context.WithValue(ctx, "deadGroup", "g1")
	case 3:
		return context.WithValue(ctx, "deadGroup", 3)
	case 4:
		return context.WithValue(ctx, "g2", "g2")
	}
	return ctx
}

// doLog logs a record with one logger, or the same attributes with two.
func doLog(p *Plan, d, also *done, e *env, sh *pool) {
	r := d.record(p, e, sh)
	d.log(r)
	if also != nil {
		also.src = d.src
		also.op.Attrs = d.op.Attrs
		r2 := r // shares the attributes with the first
		r2.Message = also.id + "|" + decode(d.op.Msg)
		also.log(r2)
	}
}

func (d *done) log(r slog.Record) {
	defer func() {
		if r := recover(); r != nil {
			d.panicked, d.panicText = true, fmt.Sprint(r)
		}
	}()
	ctx := contextOf(d.op.Ctx)
	d.en0 = zsim.Step()
	d.enabled = d.lg.h.Enabled(ctx, slog.Level(d.op.Level))
	d.en1 = zsim.Step()
	if !d.enabled {
		return
	}
	d.called = true
	sl := slot()
	defer func(was string) { *sl = was }(*sl)
	*sl = d.id
	d.err = d.lg.h.Handle(ctx, r)
}

func (d *done) record(p *Plan, e *env, sh *pool) slog.Record {
	var pc uintptr
	if d.op.Src {
		var pcs [1]uintptr
		runtime.Callers(1, pcs[:])
		pc = pcs[0]
		f, _ := runtime.CallersFrames(pcs[:]).Next()
		d.src = &node{kind: 'o', fields: []field{{key: "function", val: str(f.Function)}, {key: "file", val: str(f.File)}, {key: "line", val: num(strconv.Itoa(f.Line))}}}
	}
	r := slog.NewRecord(d.time(), slog.Level(d.op.Level), d.id+"|"+decode(d.op.Msg), pc)
	if p.cfg(d.lg.root).o.Replace == "bare" {
		// Nothing else tells whose line it is.
		d.op.Attrs = append([]Attr{{Key: "zid", V: Val{K: "str", S: d.id + "|"}}}, d.op.Attrs...)
	}
	spec, made := sh.pick(d.op.Shared)
	r.AddAttrs(append(attrsOf(d.op.Attrs, e), made...)...)
	d.op.Attrs = append(append([]Attr(nil), d.op.Attrs...), spec...)
	return r
}

func (d *done) time() time.Time {
	if d.op.T < 0 {
		return time.Time{}
	}
	t := base.Add(time.Duration(d.op.T)*time.Microsecond + time.Duration(d.op.Ns))
	if d.op.Zone != 0 {
		t = t.In(time.FixedZone("R"+strconv.Itoa(d.op.Zone), d.op.Zone*60))
	}
	return t
}

// ---------------------------------------------------------------------------- oracle

// line is what the model expects of a record.
func (p *Plan) line(d *done) *node {
	c := p.cfg(d.lg.root)
	m := c.model()
	root := &node{kind: 'o'}
	keys := [4]string{"time", "level", "msg", "source"}
	if c.kind == "flash" && c.o.Extras && c.o.Keys {
		keys = [4]string{"when", "severity", "text", "where"}
	}
	rep := ""
	if m.replace != nil {
		rep = m.replace.kind
	}
	basic := func(key string, val *node) {
		switch {
		case rep == "bare":
			return
		case rep == "nolevel" && key == "level", rep == "notime" && key == "time":
			return
		}
		root.fields = append(root.fields, field{key: key, val: val})
	}
	if d.op.T >= 0 {
		basic(keys[0], str(d.time().Format(m.timeFormat)))
	}
	lname := c.levelName(d)
	if rep == "lib" && keys[1] == slog.LevelKey {
		lname = strings.ToLower(lname)
	}
	basic(keys[1], str(lname))
	basic(keys[2], str(d.id+"|"+decode(d.op.Msg)))
	if c.o.Source && !c.o.Nil && d.src != nil {
		s := d.src
		if c.kind == "sloggy" { // from a map: sorted keys
			s = &node{kind: 'o', fields: []field{s.fields[1], s.fields[0], s.fields[2]}}
			s.alt = d.src
		} else {
			s = &node{kind: 'o', fields: s.fields, alt: &node{kind: 'o', fields: []field{s.fields[1], s.fields[0], s.fields[2]}}}
		}
		basic(keys[3], s)
	}
	cur := root
	var groups []string
	for _, l := range d.lg.chain {
		if l.group != "" {
			n := &node{kind: 'o', group: true}
			cur.fields = append(cur.fields, field{key: l.group, val: n})
			cur = n
			groups = append(groups, l.group)
			continue
		}
		m.id = l.id
		cur.fields = append(cur.fields, m.fields(l.attrs, groups, false)...)
	}
	m.id = d.id
	cur.fields = append(cur.fields, m.fields(d.op.Attrs, groups, false)...)
	prune(root)
	return root
}

func (c cfg) levelName(d *done) string {
	if c.kind == "flash" && c.o.Extras && c.o.Names {
		switch slog.Level(d.op.Level) {
		case slog.LevelInfo:
			return "information"
		case slog.LevelWarn:
			return "ach\"tung"
		case 2:
			return "note"
		case slog.LevelDebug:
			if c.o.Keys {
				return "bug"
			}
		case slog.LevelError:
			if c.o.Keys {
				return "wrong"
			}
		}
	}
	return slog.Level(d.op.Level).String()
}

// builtinFails tells whether ReplaceAttr makes a built-in attribute of the record one that can't be encoded.
func (p *Plan) builtinFails(d *done) bool {
	c := p.cfg(d.lg.root)
	if c.o.Nil {
		return false
	}
	r := &replacer{kind: c.o.Replace}
	return d.op.T >= 0 && r.fails(slog.TimeKey, slog.TimeValue(d.time())) ||
		r.fails(slog.LevelKey, slog.StringValue(c.levelName(d))) ||
		r.fails(slog.MessageKey, slog.StringValue(d.id+"|"+decode(d.op.Msg))) ||
		c.o.Source && d.src != nil && r.fails(slog.SourceKey, slog.Value{})
}

func verify(p *Plan, x *zcore.Exec, dests []*zsim.Dest, hists []*history) {
	var all []*done
	byID := make(map[string]*done)
	for _, h := range hists {
		for _, d := range h.ops {
			if d.op.Do == "log" && d.lg != nil {
				all = append(all, d)
				byID[d.id] = d
			}
		}
		for _, d := range h.inner {
			all = append(all, d)
			byID[d.id] = d
		}
	}
	// 1. What each destination got, call by call.
	faulted := make(map[string]string) // record id -> fault
	lines := make(map[string][]string) // record id -> lines
	order := make(map[string]int)
	pos := 0
	selfPanic := false
	for di, dst := range dests {
		for ci, c := range dst.Chunks {
			if p.SelfDefault && complaint(string(c.Data)) {
				x.Note("complaint") // may show addresses
			} else {
				x.Note(fmt.Sprintf("%d %d %s %q", di, c.Task, c.Kind, c.Data))
			}
			if c.Overlap {
				x.Fail("overlapping-writes", "Write %d (%.80q) began while another Write was in progress", ci, c.Data)
			}
			if c.Changed {
				x.Fail("buffer-reused", "the bytes of Write %d changed during the call: %.120q", ci, c.Data)
			}
			text, ok := strings.CutSuffix(string(c.Data), "\n")
			text = strings.TrimSuffix(text, "\r")
			if !ok || strings.ContainsAny(text, "\n\r") || text == "" {
				x.Fail("torn-line", "Write %d is not exactly one line: %.200q", ci, c.Data)
				continue
			}
			n, err := parseLine([]byte(text))
			if err != nil {
				x.Fail("malformed-line", "%v: %.300q", err, text)
				continue
			}
			id := idOf(n)
			d := byID[id]
			if d == nil && p.SelfDefault && di == 0 && complaint(text) {
				if c.Kind == "panic" {
					selfPanic = true
				}
				x.Count("complaints", 1)
				continue
			}
			if d == nil {
				x.Fail("foreign-line", "a line that no record accounts for: %.300q", text)
				continue
			}
			if want := destOf(p, d); want != di {
				x.Fail("wrong-destination", "record %s belongs to destination %d, not %d", id, want, di)
			}
			if c.Kind == "err" || c.Kind == "short" || c.Kind == "panic" {
				faulted[id] = c.Kind
			}
			lines[id] = append(lines[id], text)
			pos++
			order[id] = pos
			want := p.line(d)
			if !p.strict(d) {
				prune(n)
			}
			if err := same(want, n); err != nil {
				x.Fail("wrong-content", "record %s: %v\n want %s\n got  %s", id, err, want, text)
			}
		}
		if len(dst.Faults) == 0 {
			if k := bytes.Count(dst.Stream, []byte("\n")); k != len(dst.Chunks) {
				x.Fail("torn-line", "%d lines in %d writes", k, len(dst.Chunks))
			}
		}
	}
	// 2. Every record has the outcome it should have.
	for _, d := range all {
		x.Note(fmt.Sprintf("%s %v %v %v", d.id, d.enabled, d.err != nil, d.panicked))
		n := len(lines[d.id])
		flt := faulted[d.id]
		f := fateOf(d.op.Attrs)
		if f.mustFail && p.cfg(d.lg.root).o.Replace != "" {
			f.mustFail, f.mayFail = false, true // unless the function drops it
		}
		if p.builtinFails(d) {
			f.mustFail = true
		}
		var inj *zsim.ErrInjected
		switch {
		case n > 1:
			x.Fail("duplicate-line", "record %s was written %d times", d.id, n)
		case !d.enabled:
			if n > 0 {
				x.Fail("disabled-line", "record %s of a disabled level was written", d.id)
			}
		case flt == "panic":
			if !d.panicked && d.err == nil {
				x.Fail("silent-loss", "record %s: the destination panicked, yet Handle returned no error", d.id)
			}
		case flt != "":
			if d.panicked {
				x.Fail("panic", "record %s: %s", d.id, d.panicText)
			} else if d.err == nil {
				x.Fail("silent-loss", "record %s: the destination failed (%s), yet Handle returned no error", d.id, flt)
			} else if !errors.As(d.err, &inj) {
				x.Fail("wrong-error", "record %s: the error %v does not carry the destination's", d.id, d.err)
			}
		case d.panicked && selfPanic:
			// The destination panicked while the handler complained.
		case d.panicked:
			if !f.mayPanic {
				x.Fail("panic", "record %s: %s", d.id, d.panicText)
			} else if n > 0 {
				x.Fail("partial-record", "record %s panicked and yet was written", d.id)
			}
		case d.err != nil:
			if !f.mustFail && !f.mayFail && !(f.mayPanic) {
				x.Fail("unexpected-error", "record %s: %v", d.id, d.err)
			} else if n > 0 {
				x.Fail("partial-record", "record %s failed with %v and yet was written", d.id, d.err)
			}
		default:
			if f.mustFail {
				x.Fail("silent-loss", "record %s cannot be encoded, yet Handle returned no error", d.id)
			} else if n == 0 {
				x.Fail("lost-line", "record %s: Handle returned no error, but nothing was written", d.id)
			}
		}
		if d.enabled && flt == "" && d.err == nil && !d.panicked {
			x.Count("lines", 1)
		}
		if d.err != nil || d.panicked {
			x.Count("failed-records", 1)
		}
	}
	// 3. One client's lines keep their order.
	for ci, h := range hists {
		last, lastID := 0, ""
		for _, d := range h.ops {
			if o := order[d.id]; o > 0 && d.op.Do == "log" {
				if o < last && destOf(p, byID[d.id]) == destOf(p, byID[lastID]) {
					x.Fail("reordered", "client %d: %s was written before %s", ci, d.id, lastID)
				}
				last, lastID = o, d.id
			}
		}
		for _, d := range h.ops {
			if d.op.Do == "derive" && d.panicked && !fateOf(d.op.Attrs).mayPanic && !selfPanic {
				x.Fail("panic", "client %d: With: %s", ci, d.panicText)
			}
		}
	}
	// 4. Levels: Enabled reflects a value the level had during the call.
	levels(p, x, hists, all)
}

// strict: groups that hold nothing must not show up at all.
func (p *Plan) strict(d *done) bool {
	if p.cfg(d.lg.root).o.Replace != "" || len(d.op.Attrs) > 0 {
		return false
	}
	for _, l := range d.lg.chain {
		if l.group == "" && len(l.attrs) == 0 {
			return false
		}
		for _, a := range l.attrs {
			if a.V.isGroup() || a.V.K == "empty" || !fateOf(l.attrs).ok() {
				return false
			}
		}
	}
	return true
}

func destOf(p *Plan, d *done) int { return d.lg.root }

// complaint tells whether a line is one that the handlers write to the default logger.
func complaint(text string) bool {
	for _, m := range []string{"MarshalJSON error", "MarshalText error", "adding with attributes"} {
		if strings.Contains(text, `"`+m+`"`) {
			return true
		}
	}
	return false
}

func idOf(n *node) string {
	for _, k := range []string{"msg", "text"} {
		if m := find(n, k); m != nil && m.kind == 's' {
			if i := strings.IndexByte(m.s, '|'); i >= 0 {
				return m.s[:i]
			}
		}
	}
	for _, f := range n.fields {
		if f.key == "zid" && f.val.kind == 's' {
			if i := strings.IndexByte(f.val.s, '|'); i >= 0 {
				return f.val.s[:i]
			}
		}
		if f.val.kind == 'o' {
			if id := idOf(f.val); id != "" {
				return id
			}
		}
	}
	return ""
}

func levels(p *Plan, x *zcore.Exec, hists []*history, all []*done) {
	type set struct{ at, to int }
	var sets []set
	for _, h := range hists {
		for _, d := range h.ops {
			if d.op.Do == "level" {
				sets = append(sets, set{d.setAt, d.setTo})
			}
		}
	}
	for _, d := range all {
		if d.lg == nil {
			continue
		}
		o := p.cfg(d.lg.root).o
		init := int(slog.LevelInfo)
		if !o.Nil && !o.NoLevel {
			init = o.Level
		}
		if d.op.Do != "log" || d.en1 == 0 && d.en0 == 0 {
			continue
		}
		possible := map[bool]bool{}
		if o.Dynamic && !o.Nil {
			// The last value set before the call, and every value set during it.
			cur, at := p.Opts.Level, -1
			for _, s := range sets {
				if s.at <= d.en0 && s.at >= at {
					cur, at = s.to, s.at
				}
			}
			possible[d.op.Level >= cur] = true
			for _, s := range sets {
				if s.at >= d.en0 && s.at <= d.en1 {
					possible[d.op.Level >= s.to] = true
				}
				if s.at == at {
					possible[d.op.Level >= s.to] = true
				}
			}
		} else {
			possible[d.op.Level >= init] = true
		}
		if !possible[d.enabled] {
			x.Fail("wrong-level", "record %s of level %d: Enabled returned %v", d.id, d.op.Level, d.enabled)
		}
		if !d.enabled {
			x.Count("suppressed", 1)
		}
	}
}
