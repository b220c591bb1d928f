package zweb

import (
	"bytes"
	"context"
	"flag"
	"fmt"
	"log/slog"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/madkins23/gin-utils/pkg/handler"
	"github.com/madkins23/gin-utils/pkg/shutdown"
	"golang.org/x/net/html"

	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zserver"
	"github.com/madkins23/go-slog/internal/zsim"
)

// ---------------------------------------------------------------------------- C16, C17: the web server

// srvPlan is a whole life of the server: files to start from, and clients with their requests.
type srvPlan struct {
	World   *world            `json:"world"`
	Docs    [3]srvDoc         `json:"docs"`
	Langs   []string          `json:"langs"`
	Faults  [2]zsim.ReadFault `json:"faults"`
	Absent  int               `json:"absent"` // 1, 2: no such file
	Stdin   bool              `json:"stdin"`
	Long    longLine          `json:"long"`
	Clients [][]srvReq        `json:"clients"`
	Skew    []int             `json:"skew"` // seconds by which the clock jumps, after the first request of each client
}

type srvDoc struct {
	Text  string         `json:"text"`
	None  bool           `json:"none"` // no such file
	Fault zsim.ReadFault `json:"fault"`
}

type srvReq struct {
	Path  string `json:"path"`  // as it is in the URL
	Gone  int    `json:"gone"`  // the client is gone after one byte less than that; 0: stays
	Stall int    `json:"stall"` // seconds until the client reads
}

// content is what can be read of a text, if it can be read.
func (d *srvDoc) content() (string, bool) {
	t := d.Text
	if f := d.Fault.Truncate; f > 0 && f-1 < len(t) {
		t = t[:f-1]
	}
	if d.None || d.Fault.Open || d.Fault.ErrAt > 0 && d.Fault.ErrAt-1 <= len(t) {
		return "", false
	}
	return t, true
}

var docNames = [3]string{"bench.txt", "verify.txt", "tabular.txt"}

var hostile = []string{"<zx>", "\"onzx=\"1", "'onzx='1", "<zx a=b>c</zx>", "--><zx>", "</title><zx>", "</h2><zx>", "{{.Zx}}", "%3Czx%3E", "&lt;zx&gt;", "a&b", "javascript:zx", "a b", "ü日", "..", "a?b#c", "\x01", "\xff", "Nobody", "Bench.Nothing", "Verify.Nothing", "nothing.svg", "\n", ""}

// genServerPath picks what a browser, or somebody at a keyboard, may ask for.
func genServerPath(r *zcore.Rand, w *world) string {
	tag := func() string {
		h := &w.Handlers[r.N(len(w.Handlers))]
		switch r.N(8) {
		case 0:
			return hostile[r.N(len(hostile))]
		case 1:
			return "Bench." + testPool[r.N(len(testPool))]
		case 2:
			return zcore.Pick(r, "Bench", "Verify") + "." + trimFn(fnPool[r.N(len(fnPool))])
		case 3:
			if len(h.Bench) > 0 {
				return "Bench." + h.Bench[r.N(len(h.Bench))].Test
			}
		case 4:
			return h.Tag
		case 5:
			return w.warnTag(h)
		}
		if len(h.Bench) > 0 && r.P(0.5) {
			return "Bench." + h.Bench[r.N(len(h.Bench))].Test
		}
		return h.Tag
	}
	keeper := func() string {
		if r.P(0.12) {
			return hostile[r.N(len(hostile))]
		}
		return zcore.Pick(r, "Default", "Simple", "Size", "+Dedup", "+ReplAttr")
	}
	esc := url.PathEscape
	switch r.N(20) {
	case 0:
		return zcore.Pick(r, "/go-slog/", "/go-slog/index.html")
	case 1, 2, 3:
		return "/go-slog/test/" + esc(tag()) + ".html"
	case 4, 5, 6:
		return "/go-slog/handler/" + esc(tag()) + ".html"
	case 7, 8:
		return "/go-slog/scores/" + esc(keeper()) + "/summary.html"
	case 9, 10, 11:
		return "/go-slog/scores/" + esc(keeper()) + "/" + esc(zcore.Pick(r, "0", "1", "2", "3", "0", "1", "2", "3", "4", "-1", "x", "999999999999999999999", "1e3", "<zx>")) + "/chart.svg"
	case 12:
		return "/go-slog/warnings.html"
	case 13:
		return "/go-slog/guts.html"
	case 14:
		n := docNames[r.N(3)]
		if r.P(0.2) {
			n = hostile[r.N(len(hostile))]
		}
		return "/go-slog/text/" + esc(n) + "/display.html"
	case 15, 16, 17:
		item := zcore.Pick(r, "Runs", "Nanos", "MemAllocs", "MemBytes", "MbPerSec", "GbPerSec", "TbPerSec", "Nanos", "MemAllocs", "nanos", "Zx", "<zx>", "")
		return "/go-slog/chart/" + esc(tag()) + "/" + esc(item) + ".svg"
	case 18:
		return zcore.Pick(r, "/go-slog/home.svg", "/go-slog/scripts.js", "/go-slog/style.css", "/go-slog/error.html", "/go-slog/exit")
	}
	return zcore.Pick(r, "/", "/go-slog", "/go-slog/nothing", "/favicon.ico", "/go-slog/test/", "/go-slog/test/a/b.html", "/go-slog/../go-slog/", "/go-slog//", "/%3Czx%3E")
}

func genServerPlan(faults bool) func(r *zcore.Rand) any {
	return func(r *zcore.Rand) any {
		p := &srvPlan{World: genWorld(r, r.P(0.3))}
		if r.P(0.3) {
			p.Langs = append(p.Langs, zcore.Pick(r, "de", "fr", "en-IN", "not a language", "es"))
		}
		for i := range p.Docs {
			d := &p.Docs[i]
			d.Text = zcore.Pick(r, "plain text\n", "a < b && c > d\n", "<zx>not a tag</zx>\n", "line\n  indented\n", "{{ .Zx }} \"quoted\" 'text'\n", "ünï 日本\n", "")
			d.None = r.P(0.1)
		}
		for i := r.Range(1, 4); i > 0; i-- {
			var c []srvReq
			for j := r.Range(1, 3); j > 0; j-- {
				q := srvReq{Path: genServerPath(r, p.World)}
				if len(p.Clients) > 0 && r.P(0.3) { // what somebody else asks for as well
					o := p.Clients[r.N(len(p.Clients))]
					q.Path = o[r.N(len(o))].Path
				}
				if faults {
					if r.P(0.15) {
						q.Gone = 1 + zcore.Pick(r, 0, 1, r.N(300), r.N(20000))
					}
					if r.P(0.15) {
						q.Stall = r.Range(1, 100000)
					}
				}
				c = append(c, q)
			}
			p.Clients = append(p.Clients, c)
		}
		if r.P(0.3) {
			for i := r.Range(1, 3); i > 0; i-- {
				p.Skew = append(p.Skew, r.Range(-1000000, 1000000))
			}
		}
		return p
	}
}

// srvWarmPlans ask for many pages, some of them by clients that go away.
func srvWarmPlans() []any {
	var plans []any
	r := zcore.NewRand(0x3A4)
	for i := 0; i < 3; i++ {
		p := genServerPlan(true)(r).(*srvPlan)
		p.Clients = nil
		var c []srvReq
		for j := 0; j < 40; j++ {
			q := srvReq{Path: genServerPath(r, p.World)}
			if j%4 == 3 {
				q.Gone = 1 + zcore.Pick(r, 0, 1, r.N(300), r.N(20000))
			}
			c = append(c, q)
		}
		p.Clients = append(p.Clients, c)
		plans = append(plans, p)
	}
	return plans
}

// conn is the other end of a request: an http.ResponseWriter as net/http has one.
type conn struct {
	req   *srvReq
	head  http.Header
	sent  http.Header // as it was when the first byte went out
	code  int
	body  []byte
	gone  bool
	calls int // after the connection broke
	start time.Time
	end   time.Time
	done  bool
}

func (c *conn) Header() http.Header { return c.head }

func (c *conn) WriteHeader(code int) {
	if c.sent != nil {
		return
	}
	c.code = code
	c.sent = c.head.Clone()
	zsim.User(4)
}

func (c *conn) Write(p []byte) (int, error) {
	if c.sent == nil {
		c.WriteHeader(http.StatusOK)
	}
	if len(c.body) == 0 && len(p) > 0 && c.sent.Get("Content-Type") == "" {
		c.sent.Set("Content-Type", http.DetectContentType(p))
	}
	if c.req.Stall > 0 && !c.gone {
		zsim.Fired("stall")
		zsim.Sleep(time.Duration(c.req.Stall) * time.Second)
	}
	zsim.User(5)
	if left := c.req.Gone - 1 - len(c.body); c.req.Gone > 0 && left < len(p) {
		if !c.gone {
			zsim.Fired("client-disconnect")
			c.body = append(c.body, p[:left]...)
		}
		c.gone = true
		return 0, &zsim.ErrInjected{What: "client is gone"}
	}
	c.body = append(c.body, p...)
	return len(p), nil
}

func (c *conn) Flush() {}

// ask makes a request of the router.  ok is false if there can't be such a request.
func ask(router *gin.Engine, q *srvReq) (c *conn, ok bool) {
	u, err := url.ParseRequestURI(q.Path)
	if err != nil {
		return nil, false
	}
	c = &conn{req: q, head: http.Header{}, start: zsim.Now()}
	req := &http.Request{Method: "GET", URL: u, RequestURI: q.Path, Header: http.Header{}, Host: "sim", Proto: "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1, RemoteAddr: "127.0.0.1:4711", Body: http.NoBody}
	router.ServeHTTP(c, req.WithContext(context.Background()))
	if c.sent == nil {
		c.WriteHeader(http.StatusOK)
	}
	c.end, c.done = zsim.Now(), true
	return c, true
}

// startServer runs the command up to where it serves, and hands the router over.
func (p *srvPlan) startServer(onServe func(*gin.Engine)) (served *bool, main func()) {
	makeWarnings()
	for _, l := range p.Langs {
		_ = flag.Set("language", l)
	}
	for i, d := range p.Docs {
		name := "docs/" + docNames[i]
		if !d.None {
			zsim.FS.Files[name] = []byte(d.Text)
			zsim.FS.Faults[name] = d.Fault
		}
	}
	zserver.ZReset()
	served = new(bool)
	shutdown.OnServe = func(router *gin.Engine, _ uint) error {
		*served = true
		onServe(router)
		return nil
	}
	return served, zserver.ZMain
}

func (p *srvPlan) disk() {
	bench, verify := p.World.files(plainSection, [2]string{plainByWarning(p.World, "# "), plainByWarning(p.World, "")})
	texts := [2]string{bench, verify}
	p.Long.put(&texts)
	useFiles(texts[0], texts[1], p.Faults, p.Stdin)
	switch p.Absent {
	case 1:
		delete(zsim.FS.Files, benchPath)
	case 2:
		delete(zsim.FS.Files, verifyPath)
	}
}

// quiet replaces what a server shares with its process, and returns a function that puts it back.
func quiet() (errOut *zsim.Dest, restore func()) {
	errOut = &zsim.Dest{}
	oldErr, oldDefault, oldMode := zsim.Stderr, slog.Default(), gin.Mode()
	oldOut, oldErrOut := gin.DefaultWriter, gin.DefaultErrorWriter
	zsim.Stderr = errOut
	gin.SetMode(gin.ReleaseMode)
	handler.Exits = 0
	return errOut, func() {
		zsim.Stderr, zsim.FS = oldErr, nil
		shutdown.OnServe = nil
		slog.SetDefault(oldDefault)
		gin.SetMode(oldMode)
		gin.DefaultWriter, gin.DefaultErrorWriter = oldOut, oldErrOut
	}
}

func logged(d *zsim.Dest) (log string) {
	for _, c := range d.Chunks {
		log += string(c.Data)
	}
	return
}

func runServerPlan(pl any, x *zcore.Exec) {
	p := pl.(*srvPlan)
	errOut, restore := quiet()
	defer restore()
	s := x.Sim()
	byClient := make([][]*conn, len(p.Clients))
	p.disk()
	served, zmain := p.startServer(func(r *gin.Engine) {
		for n := range p.Clients {
			n := n
			zsim.Go(func() {
				c := p.Clients[n]
				for i := range c {
					if cn, ok := ask(r, &c[i]); ok {
						byClient[n] = append(byClient[n], cn)
					}
					if i == 0 && n < len(p.Skew) {
						zsim.Fired("clock-jump")
						zsim.Skew(time.Duration(p.Skew[n]) * time.Second)
					}
				}
			})
		}
	})
	s.Spawn("server", zmain)
	if !x.RunSim(s) {
		return
	}
	var conns []*conn
	for _, l := range byClient {
		conns = append(conns, l...)
	}
	log := logged(errOut)
	if !*served {
		x.Fail("startup", "the server does not serve: %.300q", log)
		return
	}
	if i := strings.Index(log, "panic recovered"); i >= 0 {
		x.Fail("panic", "%.600q", log[i:])
	}
	// Every request once more, alone, of a server just started.
	zsim.RestoreGlobals()
	p.disk()
	var fresh *gin.Engine
	_, zmain = p.startServer(func(r *gin.Engine) { fresh = r })
	zmain()
	alone := make(map[string]*conn)
	lone := func(path string) *conn {
		if c := alone[path]; c != nil {
			return c
		}
		c, ok := ask(fresh, &srvReq{Path: path})
		if !ok {
			return nil
		}
		alone[path] = c
		return c
	}
	seen := make(map[string]bool)
	for i := len(conns) - 1; i >= 0; i-- {
		c := conns[i]
		x.Count("requests", 1)
		one := lone(c.req.Path)
		got, want := masked(c.body), masked(one.body)
		x.Note(fmt.Sprintf("%s %d %s", c.req.Path, c.code, got))
		if c.gone {
			x.Count("disconnects", 1)
			if !bytes.HasPrefix([]byte(want), []byte(got)) && !strings.Contains(got, "Server Error") {
				x.Fail("answer", "%s: the part sent differs: %s", c.req.Path, firstDiff(got, want))
			}
			continue
		}
		if c.code != one.code || c.sent.Get("Content-Type") != one.sent.Get("Content-Type") {
			x.Fail("answer", "%s: %d %s, alone %d %s", c.req.Path, c.code, c.sent.Get("Content-Type"), one.code, one.sent.Get("Content-Type"))
		}
		if got != want {
			x.Fail("answer", "%s: %s", c.req.Path, firstDiff(got, want))
		}
		if d := c.end.Sub(c.start); c.req.Stall == 0 && len(p.Skew) == 0 && d > time.Second {
			x.Fail("stalled", "%s took %v because of a slow client elsewhere", c.req.Path, d)
		}
		if !seen[c.req.Path] {
			seen[c.req.Path] = true
			p.judge(x, one, lone)
		}
	}
}

// masked hides the time at which a page was made.
func masked(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "Date/time when this data was generated</span>"); i >= 0 {
		rest := s[i:]
		if a := strings.Index(rest, `<span class="fixed">`); a >= 0 {
			if e := strings.Index(rest[a+20:], "</span>"); e >= 0 {
				return s[:i+a+20] + "#" + rest[a+20+e:]
			}
			return s[:i+a+20] // cut in the middle of the time, as the client has gone
		}
	}
	return s
}

// judge looks at an answer in its own right.
func (p *srvPlan) judge(x *zcore.Exec, c *conn, lone func(string) *conn) {
	u, _ := url.ParseRequestURI(c.req.Path)
	ct, _, _ := strings.Cut(c.sent.Get("Content-Type"), ";")
	bad := func(class, format string, a ...any) {
		x.Fail(class, "%s: %d %s: %s", c.req.Path, c.code, ct, fmt.Sprintf(format, a...))
	}
	if c.code >= 500 {
		bad("status", "%.200q", c.body)
		return
	}
	if c.code == 200 && len(c.body) == 0 {
		bad("empty", "an empty answer")
	}
	switch ct {
	case "text/html":
		d, err := html.Parse(bytes.NewReader(c.body))
		if err != nil {
			bad("html", "%v", err)
			return
		}
		injected(d, bad)
		p.judgePage(u, c, d, bad)
		for _, t := range targets(u, d) {
			if o := lone(t); o == nil || o.code != 200 {
				bad("link", "%s answers %d", t, o.code)
			}
			x.Count("links", 1)
		}
	case "image/svg+xml":
		doc, err := parseSVG(c.body)
		if err != nil {
			bad("svg", "%v: %.200q", err, c.body)
			return
		}
		p.judgeChart(u, c, doc, bad)
	}
}

// injected looks for markup that came from a URL or a file.
func injected(n *html.Node, bad func(class, format string, a ...any)) {
	if n.Type == html.ElementNode && strings.HasPrefix(n.Data, "zx") {
		bad("injected", "element %s", n.Data)
	}
	for _, a := range n.Attr {
		if strings.HasPrefix(a.Key, "onzx") || strings.HasPrefix(strings.TrimSpace(strings.ToLower(a.Val)), "javascript:zx") {
			bad("injected", "attribute %s=%s", a.Key, a.Val)
		}
	}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		injected(k, bad)
	}
}

var serverProp = &zcore.Prop{ID: "C16", Gen: genServerPlan(true), New: func() any { return &srvPlan{} }, Run: runServerPlan,
	Quick: 1200, Warm: 10, WarmPlans: srvWarmPlans(), Thorough: 30000, Length: 4000, MaxPts: 8_000_000,
	Rule: "random results and texts, and clients that ask for pages and charts, valid and not, at the same time, some of them slow or gone in the middle of an answer, while the clock jumps; every answer is compared with the one a lone client gets from a server just started, and each page and chart with a model computed from the results",
	Real: []string{"cmd/server", "cmd/server/chart", "gin", "internal/data", "internal/scoring", "internal/language", "internal/markdown", "html/template", "gin-gonic/gin", "go-charts", "go-chart"},
	Stub: []string{"goroutine scheduler and clock", "files and standard error", "network (http.ResponseWriter and requests)", "gin-utils (shutdown, exit handler)", "snqk.dev/slog/meld (not installed here; only named by a filter)"}}

// ---------------------------------------------------------------------------- C17: starting the server

func genStartPlan(r *zcore.Rand) any {
	p := genServerPlan(false)(r).(*srvPlan)
	p.Clients, p.Skew = nil, nil
	p.Stdin, p.Long = r.P(0.3), genLong(r)
	for i := range p.Faults {
		p.Faults[i] = genChunks(r)
		p.Faults[i].Chunks = append(p.Faults[i].Chunks, 1000)
		if r.P(0.12) {
			p.Faults[i].ErrAt = 1 + zcore.Pick(r, 0, r.N(300), r.N(5000))
		}
	}
	switch r.N(14) {
	case 0:
		p.Faults[r.N(2)].Open = true
	case 1:
		p.Absent = r.Range(1, 2)
	}
	for i := range p.Docs {
		d := &p.Docs[i]
		d.Fault = genFault(r, len(d.Text))
		d.Fault.Open = r.P(0.1)
	}
	return p
}

func runStartPlan(pl any, x *zcore.Exec) {
	p := pl.(*srvPlan)
	errOut, restore := quiet()
	defer restore()
	s := x.Sim()
	p.disk()
	before := errorFaults()
	docErrors := 0
	for i := range p.Docs {
		if _, ok := p.Docs[i].content(); !ok && !p.Docs[i].None {
			docErrors++
		}
	}
	var router *gin.Engine
	served, zmain := p.startServer(func(r *gin.Engine) { router = r })
	s.Spawn("server", zmain)
	if !x.RunSim(s) {
		return
	}
	log := logged(errOut)
	faults := errorFaults() - before
	x.Note(fmt.Sprint(*served, faults))
	if failed := faults > docErrors || p.Long.over() && strings.Contains(log, "Setup error") || p.Absent == 2 || p.Absent == 1 && !p.Stdin; failed {
		x.Count("refused", 1)
		if *served {
			x.Fail("serves", "the results could not be read, and yet it serves: %.300q", log)
		}
		if !strings.Contains(log, "ERR") || !strings.Contains(log, "Setup error") {
			x.Fail("silent", "no error in the log: %.300q", log)
		}
		return
	}
	if !*served {
		x.Fail("startup", "the server does not serve: %.300q", log)
		return
	}
	x.Count("started", 1)
	lone := func(path string) *conn {
		c, ok := ask(router, &srvReq{Path: path})
		if !ok {
			return nil
		}
		return c
	}
	paths := []string{"/go-slog/", "/go-slog/guts.html", "/go-slog/warnings.html", "/go-slog/scores/Default/summary.html"}
	for _, d := range docNames {
		paths = append(paths, "/go-slog/text/"+d+"/display.html")
	}
	for i := range p.World.Handlers {
		if t := p.World.Handlers[i].Tag; len(p.World.Handlers[i].Bench) > 0 {
			paths = append(paths, "/go-slog/handler/"+t+".html")
		}
	}
	for _, path := range paths {
		c := lone(path)
		x.Note(masked(c.body))
		x.Count("pages", 1)
		if c.code != 200 {
			x.Fail("status", "%s: %d", path, c.code)
			continue
		}
		d, err := html.Parse(bytes.NewReader(c.body))
		if err != nil {
			x.Fail("html", "%s: %v", path, err)
			continue
		}
		u, _ := url.ParseRequestURI(path)
		p.judgePage(u, c, d, func(class, format string, a ...any) { x.Fail(class, "%s: %s", path, fmt.Sprintf(format, a...)) })
	}
}

var startProp = &zcore.Prop{ID: "C17", Gen: genStartPlan, New: func() any { return &srvPlan{} }, Run: runStartPlan,
	Quick: 1200, Thorough: 60000, Length: 4000, MaxPts: 8_000_000, NoSched: true, Warm: 10,
	Rule: "random results and texts on a simulated disk, whose reads come in arbitrary pieces, fail or end early, or whose files are missing; the whole server starts or must not, and if it does, its pages are compared with the results",
	Real: []string{"cmd/server", "internal/data", "internal/scoring", "internal/language", "html/template", "gin-gonic/gin", "console-slog"},
	Stub: []string{"files, standard input and standard error", "network (http.ResponseWriter)", "gin-utils (shutdown, exit handler)", "snqk.dev/slog/meld (not installed here; only named by a filter)"}}
