package zweb

import (
	"errors"
	"fmt"
	"log/slog"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/gin-gonic/gin"

	ginslog "github.com/madkins23/go-slog/gin"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ginOpts describes the options of a Gin writer.
type ginOpts struct {
	Level    int    `json:"level"`
	NoLevel  bool   `json:"nolevel"`
	Dynamic  bool   `json:"dynamic"`
	Parse    bool   `json:"parse"`
	Embed    bool   `json:"embed"`
	TLevel   int    `json:"tlevel"`
	NoTLevel bool   `json:"notlevel"`
	TDynamic bool   `json:"tdynamic,omitempty"` // traffic is logged at the same changing level, if there is one
	Reuse    bool   `json:"reuse,omitempty"`    // the caller changes its options once the writer is made
	Message  string `json:"message"`
	Group    string `json:"group"`
}

// ginLine is one thing that Gin logs.
type ginLine struct {
	Prefix  []string `json:"prefix"` // in brackets
	Bad     bool     `json:"bad"`    // the last of them is no level
	Time    bool     `json:"time"`
	Traffic bool     `json:"traffic"`
	Code    int      `json:"code"`
	Elapsed string   `json:"elapsed"`
	Client  string   `json:"client"`
	Method  string   `json:"method"`
	URL     string   `json:"url"`
	Text    string   `json:"text"`
	End     string   `json:"end"`
	Pad     int      `json:"pad"`
	Level   int      `json:"level"` // set the dynamic level to this instead of writing
	Set     bool     `json:"set"`
}

type ginPlan struct {
	Min     int         `json:"min"` // level of the default logger
	Writers []ginOpts   `json:"writers"`
	Clients [][]ginStep `json:"clients"`
	Yield   bool        `json:"yield"`
}

type ginStep struct {
	W    int     `json:"w"`
	Line ginLine `json:"line"`
}

var methods = []string{"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PROPFIND", "X"}
var clients = []string{"::1", "127.0.0.1", "192.168.100.200", "fe80::1%eth0", "2001:db8:aaaa:bbbb:cccc:dddd:eeee:ffff", "10.0.0.1"}
var elapsed = []string{"5.529751605s", "0s", "46.763µs", "1ns", "2m3s", "999.999999ms", "1h0m0.5s"}

func genPath(r *zcore.Rand) string {
	parts := []string{"", "chart.svg", "a b", "\"q\"", "x|y", "ünïcode", "%20", "back\\slash", "a\nb", "<b>", "it's", "`", "\t", "日本", "..", "a;b=c", "[GIN]", " "}
	p := ""
	for i := r.Range(1, 4); i > 0; i-- {
		p += "/" + parts[r.N(len(parts))]
	}
	if r.P(0.1) {
		p += "/" + strings.Repeat("long", r.Range(10, 400))
	}
	if r.P(0.4) {
		p += "?" + zcore.Pick(r, "tag=With_Attrs&item=MemBytes", "q=a b", "q=%22", "a|b=c|d", "", "x=\"y\"", "=", "tag=ü")
	}
	return p
}

func genGinLine(r *zcore.Rand) ginLine {
	l := ginLine{End: zcore.Pick(r, "\n", "\n", "", "\n\n"), Pad: r.N(3)}
	switch r.N(6) {
	case 0:
		l.Prefix = []string{"GIN"}
	case 1:
		l.Prefix = []string{"GIN-debug"}
	case 2:
		l.Prefix = []string{"GIN-debug", zcore.Pick(r, "WARNING", "ERROR", "INFO", "DEBUG")}
	case 3:
		l.Prefix = []string{zcore.Pick(r, "WARNING", "ERROR", "INFO", "DEBUG")}
	case 4:
		l.Prefix = []string{"GIN", zcore.Pick(r, "WARNING", "ERROR", "INFO", "DEBUG")}
	}
	if r.P(0.05) {
		l.Bad = true
		l.Prefix = append(l.Prefix, zcore.Pick(r, "BAD", "warning", "TRACE", "Debug", "INFO2", "GIN2"))
	}
	if r.P(0.6) {
		l.Traffic = true
		l.Time = r.P(0.7)
		l.Code = zcore.Pick(r, 200, 404, 500, 0, 999, 100)
		l.Elapsed, l.Client, l.Method, l.URL = zcore.Pick(r, elapsed...), zcore.Pick(r, clients...), zcore.Pick(r, methods...), genPath(r)
		return l
	}
	l.Text = "text"
	for i := r.N(4); i > 0; i-- {
		l.Text += " " + word(r)
	}
	l.Text = strings.TrimRight(l.Text, "\n")
	if r.P(0.1) {
		l.Text += strings.Repeat(" more", r.Range(10, 2000))
	}
	if r.P(0.004) {
		l.Text += strings.Repeat(" more", r.Range(5000, 40000))
	}
	if r.P(0.03) {
		l.Text = ""
	}
	return l
}

func genGinOpts(r *zcore.Rand) ginOpts {
	return ginOpts{Level: zcore.Pick(r, -8, -4, 0, 3, 4, 8, 12), NoLevel: r.P(0.2), Dynamic: r.P(0.3), Parse: r.P(0.6), Embed: r.P(0.5),
		TDynamic: r.P(0.3), Reuse: r.P(0.3), TLevel: zcore.Pick(r, -4, 0, 2, 4, 8), NoTLevel: r.P(0.4), Message: zcore.Pick(r, "", "", "Traffic!", "x"), Group: zcore.Pick(r, "", "", "web", "a.b")}
}

func genGinPlan(r *zcore.Rand) any {
	p := &ginPlan{Min: zcore.Pick(r, -8, -4, 0, 0, 4), Yield: r.P(0.7)}
	for i := r.Range(1, 2); i > 0; i-- {
		p.Writers = append(p.Writers, genGinOpts(r))
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var c []ginStep
		n := r.Range(1, 6)
		if i == 1 && r.P(0.01) {
			n = r.Range(70, 300)
		}
		for j := n; j > 0; j-- {
			s := ginStep{W: r.N(len(p.Writers)), Line: genGinLine(r)}
			if r.P(0.1) {
				s.Line = ginLine{Set: true, Level: zcore.Pick(r, -4, 0, 4, 8)}
			}
			c = append(c, s)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

// bytes of a line as Gin would write it.
func (l *ginLine) bytes() []byte {
	var b strings.Builder
	for _, p := range l.Prefix {
		b.WriteString(strings.Repeat(" ", l.Pad/2) + "[" + p + "]" + strings.Repeat(" ", 1+l.Pad%2))
	}
	if l.Time {
		b.WriteString("2024/01/26 - 13:21:32 | ")
	}
	b.WriteString(l.body())
	b.WriteString(l.End)
	return []byte(b.String())
}

func (l *ginLine) body() string {
	if l.Traffic {
		return fmt.Sprintf("%3d | %13v | %15s | %-7s %#v", l.Code, l.Elapsed, l.Client, l.Method, l.URL)
	}
	return l.Text
}

// want is what the record of a line must be.
type want struct {
	levels []slog.Level // any of these
	msg    string
	alt    string
	attrs  []flat
}

func (o *ginOpts) expect(l *ginLine, base []slog.Level) want {
	w := want{levels: base}
	for _, p := range l.Prefix {
		switch p {
		case "GIN-debug", "DEBUG":
			w.levels = []slog.Level{slog.LevelDebug}
		case "INFO":
			w.levels = []slog.Level{slog.LevelInfo}
		case "WARNING":
			w.levels = []slog.Level{slog.LevelWarn}
		case "ERROR":
			w.levels = []slog.Level{slog.LevelError}
		}
	}
	w.msg = l.body()
	if !l.Traffic || !o.Parse {
		return w
	}
	w.levels = []slog.Level{slog.Level(o.TLevel)}
	if o.Dynamic && o.TDynamic {
		w.levels = base
	} else if o.NoTLevel {
		w.levels = []slog.Level{slog.LevelInfo}
	}
	w.msg = o.Message
	if w.msg == "" {
		w.msg = ginslog.DefaultTrafficMessage
	}
	prefix := ""
	if !o.Embed {
		prefix = o.Group
		if prefix == "" {
			prefix = ginslog.DefaultTrafficGroup
		}
		prefix += "\x00"
	}
	w.attrs = []flat{{prefix + "code", slog.Int64Value(int64(l.Code))}, {prefix + "elapsed", slog.StringValue(l.Elapsed)},
		{prefix + "client", slog.StringValue(l.Client)}, {prefix + "method", slog.StringValue(l.Method)}, {prefix + "url", slog.StringValue(l.URL)}}
	return w
}

func (w *want) matches(e *entry) string {
	ok := false
	for _, l := range w.levels {
		ok = ok || e.level == l
	}
	if !ok {
		return fmt.Sprintf("level %v, want %v", e.level, w.levels)
	}
	if strings.TrimLeft(e.msg, " ") != strings.TrimLeft(w.msg, " ") {
		return fmt.Sprintf("message %q, want %q", e.msg, w.msg)
	}
	if len(e.attrs) != len(w.attrs) {
		return fmt.Sprintf("attributes %v, want %v", e.attrs, w.attrs)
	}
	// In any order: the attributes are named.
	for _, a := range w.attrs {
		found := false
		for _, b := range e.attrs {
			found = found || a.key == b.key && a.value.Equal(b.value)
		}
		if !found {
			return fmt.Sprintf("attributes %v, want %v", e.attrs, w.attrs)
		}
	}
	return ""
}

type ginDone struct {
	line       *ginLine
	opts       *ginOpts
	from, to   int // range of the collector's entries of this task
	start, end int
	n, size    int
	err        error
	input      string
}

func runGinPlan(pl any, x *zcore.Exec) {
	p := pl.(*ginPlan)
	col := &collector{min: slog.Level(p.Min), yield: p.Yield}
	var vars []*slog.LevelVar
	type change struct{ step, level int }
	changes := make([][]change, len(p.Writers))
	var all []*ginDone
	perTask := make(map[int][]*ginDone)
	withDefault(col, func() {
		s := x.Sim()
		var ws []interface{ Write([]byte) (int, error) }
		for i := range p.Writers {
			o := &p.Writers[i]
			lv := new(slog.LevelVar)
			vars = append(vars, lv)
			opts := &ginslog.Options{Traffic: ginslog.Traffic{Parse: o.Parse, Embed: o.Embed, Message: o.Message, Group: o.Group}}
			if !o.NoTLevel {
				opts.Traffic.Level = slog.Level(o.TLevel)
			}
			if o.Dynamic && o.TDynamic {
				opts.Traffic.Level = lv
			}
			start := o.Level
			if o.Dynamic {
				opts.Level = lv
			} else if !o.NoLevel {
				opts.Level = slog.Level(o.Level)
			} else {
				start = 0
			}
			before := *opts
			ws = append(ws, ginslog.NewWriter(opts))
			if *opts != before {
				x.Fail("options-changed", "NewWriter changed the caller's options: %+v, were %+v", *opts, before)
			}
			if o.Reuse {
				*opts = ginslog.Options{Level: slog.Level(20), Traffic: ginslog.Traffic{Parse: !o.Parse, Embed: !o.Embed, Message: "not mine", Group: "other", Level: slog.Level(20)}}
			}
			lv.Set(slog.Level(o.Level)) // after NewWriter: the level counts when something is logged
			changes[i] = []change{{-1, start}}
		}
		for _, steps := range p.Clients {
			steps := steps
			s.Spawn("client", func() {
				for i := range steps {
					st := &steps[i]
					if st.W >= len(ws) {
						continue
					}
					if st.Line.Set {
						if p.Writers[st.W].Dynamic {
							// The change may be seen at any time from here on.
							changes[st.W] = append(changes[st.W], change{zsim.Step(), st.Line.Level})
							vars[st.W].Set(slog.Level(st.Line.Level))
							zsim.Fired("level-change")
						}
						continue
					}
					raw := st.Line.bytes()
					d := &ginDone{line: &st.Line, opts: &p.Writers[st.W], start: zsim.Step(), size: len(raw), input: string(raw)}
					me := zsim.TaskID()
					d.n, d.err = ws[st.W].Write(raw)
					d.end = zsim.Step()
					// The writer must not keep the bytes.
					for k := range raw {
						raw[k] = '#'
					}
					perTask[me] = append(perTask[me], d)
					all = append(all, d)
				}
			})
		}
		if !x.RunSim(s) {
			return
		}
		byTask := make(map[int][]*entry)
		for _, e := range col.got {
			byTask[e.task] = append(byTask[e.task], e)
			x.Note(fmt.Sprintf("%d %v %q %v", e.task, e.level, e.msg, e.attrs))
		}
		for task, ds := range perTask {
			es := byTask[task]
			for _, d := range ds {
				w := -1
				for i := range p.Writers {
					if d.opts == &p.Writers[i] {
						w = i
					}
				}
				if d.line.Bad {
					if d.err == nil {
						x.Fail("unknown-level", "Write(%q) succeeded", d.input)
					}
					continue
				}
				if d.err != nil || d.n != d.size {
					x.Fail("write-result", "Write(%q) = %d, %v; want %d, nil", d.input, d.n, d.err, d.size)
					continue
				}
				// Levels in force at some time during the call.
				var base []slog.Level
				for i, c := range changes[w] {
					last := true
					for _, c2 := range changes[w][i+1:] {
						// A later change that was certainly complete before the call hides this one.
						last = last && c2.step+40 >= d.start
					}
					if c.step <= d.end && last {
						base = append(base, slog.Level(c.level))
					}
				}
				exp := d.opts.expect(d.line, base)
				// An optional debugging record says that the line is not traffic.
				var own []*entry
				for len(es) > 0 && es[0].step >= d.start && es[0].step <= d.end {
					own = append(own, es[0])
					es = es[1:]
				}
				if d.opts.Parse && !d.line.Traffic && len(own) > 0 && own[0].level == slog.LevelDebug && own[0].msg == "gin traffic parse" {
					own = own[1:]
				}
				disabled := true
				for _, l := range exp.levels {
					disabled = disabled && l < col.min
				}
				enabled := true
				for _, l := range exp.levels {
					enabled = enabled && l >= col.min
				}
				switch {
				case len(own) == 0 && !enabled:
					x.Count("suppressed", 1)
				case len(own) != 1 || disabled:
					x.Fail("record-count", "Write(%q) made %d records, want one at %v (minimum %v)", d.input, len(own), exp.levels, col.min)
				default:
					if diff := exp.matches(own[0]); diff != "" {
						x.Fail("record", "Write(%q) with %+v: %s", d.input, *d.opts, diff)
					}
					x.Count("records", 1)
				}
			}
			if len(es) > 0 {
				x.Fail("extra-record", "%v %q", es[0].level, es[0].msg)
			}
		}
		for _, e := range col.got {
			if e.rec.Message != e.msg {
				x.Fail("retained", "message %q became %q after Write returned", e.msg, e.rec.Message)
			}
		}
	})
}

var ginWriterProp = &zcore.Prop{ID: "C08", Gen: genGinPlan, New: func() any { return &ginPlan{} }, Run: runGinPlan,
	Quick: 10000, Thorough: 1000000, Length: 800, MaxPts: 200_000,
	Rule:   "plans of concurrent writers of structured Gin lines (the expected record comes from the structure, not from parsing), with level changes; bytes are overwritten after each Write",
	Real:   []string{"gin", "log/slog"},
	Stub:   []string{"default slog handler (records what it gets)", "goroutine scheduler"},
	Assume: []string{"one Write per Gin line, as the writer documents"}}

// ---------------------------------------------------------------------------- through Gin itself

type reqPlan struct {
	Opts    ginOpts     `json:"opts"`
	Clients [][]reqStep `json:"clients"`
	Errors  bool        `json:"errors"`
	Split   bool        `json:"split"` // separate writer for errors
}

type reqStep struct {
	Method string `json:"method"`
	Path   string `json:"path"`
	Query  string `json:"query"`
	Client string `json:"client"`
	Code   int    `json:"code"`
	Do     string `json:"do"` // ok, panic, error, abort
	Sleep  int    `json:"sleep"`
}

func genReqPlan(r *zcore.Rand) any {
	p := &reqPlan{Opts: genGinOpts(r), Split: r.P(0.5)}
	p.Opts.Dynamic, p.Opts.Level, p.Opts.TLevel = false, zcore.Pick(r, 0, 4, 8), zcore.Pick(r, 0, 4)
	for i := r.Range(1, 4); i > 0; i-- {
		var c []reqStep
		n := r.Range(1, 4)
		if i == 1 && r.P(0.01) {
			n = r.Range(30, 100)
		}
		for j := n; j > 0; j-- {
			st := reqStep{Method: zcore.Pick(r, "GET", "POST", "PUT", "DELETE", "OPTIONS", "PROPFIND", "HEAD"), Client: zcore.Pick(r, "::1", "127.0.0.1", "192.168.100.200", "2001:db8:aaaa:bbbb:cccc:dddd:eeee:ffff"),
				Code: zcore.Pick(r, 200, 201, 404, 500, 302), Do: zcore.Pick(r, "ok", "ok", "ok", "error", "panic", "abort"), Sleep: zcore.Pick(r, 0, 0, 1, 999, 1000000)}
			st.Path, st.Query, _ = strings.Cut(genPath(r), "?")
			st.Path = strings.ReplaceAll(st.Path, "\n", "%")
			c = append(c, st)
		}
		p.Clients = append(p.Clients, c)
	}
	return p
}

type stepKey struct{}

func runReqPlan(pl any, x *zcore.Exec) {
	p := pl.(*reqPlan)
	col := &collector{min: slog.LevelInfo, yield: true}
	withDefault(col, func() {
		gin.SetMode(gin.ReleaseMode)
		o := &p.Opts
		opts := &ginslog.Options{Traffic: ginslog.Traffic{Parse: o.Parse, Embed: o.Embed, Message: o.Message, Group: o.Group}}
		if !o.NoTLevel {
			opts.Traffic.Level = slog.Level(o.TLevel)
		}
		if !o.NoLevel {
			opts.Level = slog.Level(o.Level)
		} else {
			o.Level = 0
		}
		s := x.Sim()
		out := ginslog.NewWriter(opts)
		errOut := out
		if p.Split {
			errOut = ginslog.NewWriter(&ginslog.Options{Level: slog.LevelError})
		}
		router := gin.New()
		router.Use(gin.LoggerWithConfig(gin.LoggerConfig{Output: out}), gin.RecoveryWithWriter(errOut))
		serve := func(c *gin.Context) {
			st := c.Request.Context().Value(stepKey{}).(*reqStep)
			if st.Sleep > 0 {
				zsim.Skew(0)
				c.Writer.Header()
			}
			switch st.Do {
			case "panic":
				panic("boom " + st.Path)
			case "error":
				_ = c.Error(errors.New("went wrong: " + st.Path))
				c.Status(st.Code)
			case "abort":
				c.AbortWithStatus(st.Code)
			default:
				c.String(st.Code, "fine")
			}
		}
		router.NoRoute(serve)
		type reply struct {
			st   *reqStep
			task int
			code int
			from int
			to   int
		}
		var replies []*reply
		for _, steps := range p.Clients {
			steps := steps
			s.Spawn("client", func() {
				for i := range steps {
					st := &steps[i]
					req := &http.Request{Method: st.Method, URL: &url.URL{Path: st.Path, RawQuery: st.Query}, Header: http.Header{}, Host: "sim", Proto: "HTTP/1.1",
						ProtoMajor: 1, ProtoMinor: 1, RemoteAddr: hostPort(st.Client), Body: http.NoBody}
					req = req.WithContext(withStep(req.Context(), st))
					rp := &reply{st: st, task: zsim.TaskID(), from: zsim.Step()}
					rec := httptest.NewRecorder()
					router.ServeHTTP(rec, req)
					rp.code, rp.to = rec.Code, zsim.Step()
					replies = append(replies, rp)
				}
			})
		}
		if !x.RunSim(s) {
			return
		}
		byTask := make(map[int][]*entry)
		for _, e := range col.got {
			byTask[e.task] = append(byTask[e.task], e)
			x.Note(fmt.Sprintf("%d %v %q %v", e.task, e.level, e.msg, e.attrs))
		}
		for _, rp := range replies {
			code := rp.st.Code
			if rp.st.Do == "panic" {
				code = 500
			}
			if rp.code != code {
				x.Fail("reply", "%+v answered %d", *rp.st, rp.code)
			}
			url := rp.st.Path
			if rp.st.Query != "" {
				url += "?" + rp.st.Query
			}
			traffic := 0
			es := byTask[rp.task]
			var own, rest []*entry
			for _, e := range es {
				if e.step >= rp.from && e.step <= rp.to {
					own = append(own, e)
				} else {
					rest = append(rest, e)
				}
			}
			byTask[rp.task] = rest
			panics := 0
			for _, e := range own {
				if rp.st.Do == "panic" && strings.Contains(e.msg, "panic recovered") {
					panics++
					if !strings.Contains(e.msg, "boom ") {
						x.Fail("panic-record", "%q lacks the panic", e.msg)
					}
					lv := slog.LevelError
					if !p.Split {
						lv = slog.Level(o.Level)
					}
					if e.level != lv {
						x.Fail("panic-record", "level %v, want %v", e.level, lv)
					}
					continue
				}
				traffic++
				l := ginLine{Prefix: []string{"GIN"}, Traffic: true, Code: code, Client: rp.st.Client, Method: rp.st.Method, URL: url}
				exp := o.expect(&l, []slog.Level{slog.Level(o.Level)})
				raw := !o.Parse || rp.st.Do == "error"
				if len(e.attrs) > 0 && o.Parse {
					raw = false
				}
				if raw {
					for _, part := range []string{fmt.Sprint(code), rp.st.Client, rp.st.Method, fmt.Sprintf("%#v", url)} {
						if !strings.Contains(e.msg, part) {
							x.Fail("traffic-record", "%+v: message %q lacks %s", *rp.st, e.msg, part)
						}
					}
					if rp.st.Do == "error" && !strings.Contains(e.msg, "went wrong") {
						x.Fail("traffic-record", "%+v: message %q lacks the error", *rp.st, e.msg)
					}
					if e.level != slog.Level(o.Level) {
						x.Fail("traffic-record", "level %v, want %v", e.level, o.Level)
					}
				} else {
					// The time the request took is Gin's affair.
					for i := range e.attrs {
						if strings.HasSuffix(e.attrs[i].key, "elapsed") {
							for k := range exp.attrs {
								if exp.attrs[k].key == e.attrs[i].key {
									exp.attrs[k].value = e.attrs[i].value
								}
							}
						}
					}
					if diff := exp.matches(e); diff != "" {
						x.Fail("traffic-record", "%+v with %+v: %s", *rp.st, *o, diff)
					}
				}
			}
			if traffic != 1 {
				x.Fail("traffic-count", "%+v made %d traffic records", *rp.st, traffic)
			}
			if rp.st.Do == "panic" && panics != 1 {
				x.Fail("panic-count", "%+v made %d records of the panic", *rp.st, panics)
			}
			x.Count("requests", 1)
		}
		for _, es := range byTask {
			if len(es) > 0 {
				x.Fail("extra-record", "%v %q", es[0].level, es[0].msg)
			}
		}
	})
}

func hostPort(ip string) string {
	if strings.Contains(ip, ":") {
		return "[" + ip + "]:4711"
	}
	return ip + ":4711"
}

var ginTrafficProp = &zcore.Prop{ID: "C09", Gen: genReqPlan, New: func() any { return &reqPlan{} }, Run: runReqPlan,
	Quick: 4000, Thorough: 400000, Length: 800, MaxPts: 200_000,
	Rule:   "plans of concurrent HTTP requests, with panics and errors in handlers, served by the real Gin engine with its logger and recovery writing to the Gin writer",
	Real:   []string{"gin", "gin-gonic/gin v1.10", "log/slog"},
	Stub:   []string{"network (requests are handed to the engine)", "default slog handler (records what it gets)", "goroutine scheduler", "clock"},
	Assume: []string{"Gin's default log format"}}
