package zhandlers

import (
	"fmt"
	"math"
	"strings"

	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// profile steers the generation of a plan.
type profile struct {
	clients   [2]int
	ops       [2]int
	derive    [2]int  // loggers made beforehand
	pDerive   float64 // share of operations that derive
	pLevel    float64
	pFail     float64 // share of values that fail, panic
	pRelog    float64 // share of values that log themselves
	pFault    float64 // share of plans with destination faults
	pTwo      float64
	pReplace  float64
	pBig      float64
	pSkew     float64
	newInRun  bool
	dynamic   float64
	replaceOf []string
	pDefault  float64
	pGroup    float64
}

func handlerKind(r *zcore.Rand) string { return zcore.Pick(r, "flash", "sloggy") }

type genState struct {
	r    *zcore.Rand
	pf   *profile
	n    int // of a key there is but once
	k    int // of a key
	deep int // how deep groups may be nested
	wide int // how many attributes a call may have
	lib  bool
	huge bool // there is a very long string already
}

// names of basic fields, by default or as configured, are fine names for attributes, too.
var basicNames = []string{"time", "level", "msg", "source", "when", "severity", "text", "where"}

var texts = []string{"alpha", "", "two words", "quo\"te", "back\\slash", "new\nline", "tab\there", "naïve ünïcode", "日本語", "a/b", "😀", "{\"json\": true}", "x", "cr\rlf", "bell\a", "nul\x00", "\x1b[0m", "del\x7f", "broken ‹c3›\" utf", "cut ‹e2›‹82›", "‹ff›‹fe›", "<a href=\"x\">&amp;</a>", "\u2028 \u2029 \ufffd \ufeff", "100% %s %d", "\\u0041 \\n", "}{][,:"}

func (g *genState) str() Val {
	v := Val{K: "str", S: zcore.Pick(g.r, texts...)}
	if g.r.P(g.pf.pBig) {
		v.N = g.r.Range(50, 700)
		if !g.huge && g.r.P(0.1) {
			g.huge = true
			v.N = zcore.Pick(g.r, 20_000, 20_000, 70_000, 300_000) / (1 + len(v.S))
		}
	}
	return v
}

func (g *genState) key(v Val, inGroup bool) string {
	g.k++
	switch v.K {
	case "func", "jsonbad", "textbad", "strerpanic", "jsonpanic":
		// May be left out: its key must not be that of another attribute.
		g.n++
		return fmt.Sprintf("f%d", g.n)
	}
	if !g.lib && g.r.P(0.06) {
		return zcore.Pick(g.r, basicNames...)
	}
	switch {
	case g.r.P(0.03):
		return "dup"
	case g.r.P(0.01):
		return fmt.Sprintf("%s%d", strings.Repeat("long key ", g.r.Range(10, 120)), g.k)
	case g.r.P(0.02) && v.K == "int":
		return ""
	}
	if g.pf.pReplace > 0 && !inGroup && v.K != "group" && v.K != "lvgroup" && v.K != "anygroup" {
		if g.r.P(0.2) {
			return zcore.Pick(g.r, "drop", "ren", "cv", "DROP")
		}
		if v.K == "str" || v.K == "lvstr" {
			if g.r.P(0.6) {
				return fmt.Sprintf("p%d", g.k)
			}
		}
		return fmt.Sprintf("%s%d", zcore.Pick(g.r, "k", "k", "d", "r"), g.k)
	}
	if g.r.P(0.05) {
		return fmt.Sprintf("%s%d", zcore.Pick(g.r, "k q", "k\"", "kü", "k\\"), g.k)
	}
	return fmt.Sprintf("k%d", g.k)
}

func (g *genState) val(depth int) Val {
	r := g.r
	if r.P(g.pf.pFail) {
		return Val{K: zcore.Pick(r, "func", "jsonbad", "textbad", "strerpanic", "jsonpanic"), S: "x"}
	}
	if r.P(g.pf.pRelog) {
		return Val{K: zcore.Pick(r, "lvrelog", "strerrelog", "jsonrelog", "textrelog"), S: "again"}
	}
	if depth < g.deep && (r.P(g.pf.pGroup) || g.deep > 2 && r.P(0.4)) {
		v := Val{K: zcore.Pick(r, "group", "group", "lvgroup", "anygroup")}
		for i := r.N(4); i > 0; i-- {
			v.G = append(v.G, g.attr(depth+1))
		}
		return v
	}
	if r.P(0.35) {
		return g.str()
	}
	v := Val{K: zcore.Pick(r, "int", "uint", "float", "bool", "dur", "time", "lvstr", "lvlv", "lvint", "lvdur", "lvtime", "err", "strer", "json", "text", "strs", "map", "struct", "nil", "ip", "fodd", "lvpanic", "lvloop", "bytes", "raw", "mac", "ipnet", "ztime"),
		I: int64(r.N(1000000)), F: float64(r.N(100000)) / 8, S: zcore.Pick(r, "s", "t u", "val")}
	switch {
	case r.P(0.3):
		v.I = -v.I
	case r.P(0.2):
		v.I = zcore.Pick(r, int64(0), 1, -1, math.MaxInt64, math.MinInt64, 1<<53+1, math.MaxInt32, -1<<31, 1_000_000_000, 999_999_999)
		v.F = zcore.Pick(r, 0.0, math.Copysign(0, -1), 1e300, -1e300, 5e-324, math.MaxFloat64, 0.1, 1e21, 123456789.123456789, 1e-7)
	}
	if v.K == "fodd" && v.I < 0 {
		v.I = -(v.I + 1)
	}
	if v.K == "ztime" {
		v.N = zcore.Pick(r, 0, 60, -330, 845, 1, -720)
		if r.P(0.5) {
			v.I = zcore.Pick(r, int64(0), 1000, 9000)
		}
	}
	return v
}

func (g *genState) attr(depth int) Attr {
	if g.r.P(0.03) {
		return Attr{V: Val{K: "empty"}}
	}
	v := g.val(depth)
	k := g.key(v, depth > 0)
	if (v.K == "group" || v.K == "anygroup") && g.r.P(0.15) {
		k = "" // inlined
	}
	return Attr{Key: k, V: v}
}

// shared makes attributes that everybody logs.
func (g *genState) shared() (out []Attr) {
	h := *g
	pf := *g.pf
	pf.pFail, pf.pRelog, pf.pBig = 0, 0, 0
	if pf.pGroup < 0.5 {
		pf.pGroup = 0.5
	}
	h.pf = &pf
	for i := h.r.Range(1, 4); i > 0; i-- {
		a := h.attr(0)
		if h.r.P(0.6) {
			who := Attr{Key: h.key(Val{K: "lvwho"}, a.V.isGroup()), V: Val{K: "lvwho"}}
			if a.V.isGroup() {
				a.V.G = append(a.V.G, who)
			} else {
				a = who
			}
		}
		out = append(out, a)
	}
	g.n, g.k = h.n, h.k
	return out
}

// some of the shared attributes, perhaps.
func (g *genState) some(p *Plan) (out []int) {
	if len(p.Shared) == 0 || g.r.P(0.4) {
		return nil
	}
	for i := g.r.Range(1, 2); i > 0; i-- {
		out = append(out, g.r.N(len(p.Shared)))
	}
	return out
}

func (g *genState) attrs(lo, hi int) []Attr {
	var out []Attr
	if g.wide > 0 && g.r.P(0.3) {
		hi = g.wide
	}
	for i := g.r.Range(lo, hi); i > 0; i-- {
		out = append(out, g.attr(0))
	}
	return out
}

func (g *genState) group() string {
	if g.r.P(0.04) {
		return zcore.Pick(g.r, "g\"q", "g\nn", "gü", strings.Repeat("long group ", 60), "msg", "{", "dup")
	}
	return zcore.Pick(g.r, "g1", "g2", "g3", "gh")
}

func (pf *profile) gen(r *zcore.Rand) any {
	g := &genState{r: r, pf: pf}
	local := *pf
	p := &Plan{Handler: handlerKind(r), NewInRun: pf.newInRun}
	p.Opts = pf.opts(r, p.Handler)
	if o := &p.Opts; o.Replace == "" || o.Replace == "nolevel" || o.Replace == "notime" || strings.HasPrefix(o.Replace, "fail-") {
		local.pReplace = 0
		g.pf = &local
	}
	g.lib = p.Opts.Replace == "lib" || strings.HasPrefix(p.Opts.Replace, "fail-")
	g.deep = 2
	if r.P(0.05) {
		g.deep = r.Range(3, 8)
	}
	if r.P(0.08) {
		g.wide = r.Range(6, 40)
	}
	p.Slow = r.P(0.5)
	p.Reuse = r.P(0.15)
	if r.P(0.3) {
		p.Shared = g.shared()
	}
	if !p.NewInRun {
		p.TwoDest = r.P(pf.pTwo)
		if p.TwoDest && r.P(0.6) {
			p.Handler2 = handlerKind(r)
			p.Opts2 = pf.opts(r, p.Handler2)
			g.lib = g.lib || p.Opts2.Replace == "lib" || strings.HasPrefix(p.Opts2.Replace, "fail-")
		}
		n, long := r.Range(pf.derive[0], pf.derive[1]), r.P(0.04)
		if long {
			n = r.Range(10, 45)
		}
		for i := 0; i < n; i++ {
			d := Derivation{From: r.N(8)}
			if long {
				d.From = i + 1 // mostly the one before
				if p.TwoDest {
					d.From++
				}
				d.From -= r.N(3) / 2
			}
			switch {
			case r.P(0.4) || long && r.P(0.4):
				d.Group = g.group()
			case r.P(0.04):
				d.NoName = true
			case r.P(0.04):
			default:
				d.Attrs = g.attrs(1, 3)
			}
			p.Derive = append(p.Derive, d)
		}
	}
	again := r.P(0.4)      // the same times and keys again and again
	marathon := r.P(0.006) // somebody logs for a long time
	for c := r.Range(pf.clients[0], pf.clients[1]); c > 0; c-- {
		var ops []Op
		n := r.Range(pf.ops[0], pf.ops[1])
		if marathon && c == 1 {
			n = r.Range(70, 400)
		}
		for i := n; i > 0; i-- {
			op := Op{Do: "log", L: r.N(16)}
			if marathon && r.P(0.9) {
				op.L = c
			}
			if again {
				g.k = 0
			}
			switch {
			case r.P(pf.pDerive):
				op.Do = "derive"
				switch {
				case r.P(0.45):
					op.Group = g.group()
				case r.P(0.04):
					op.NoName = true
				case r.P(0.04):
				default:
					op.Attrs = g.attrs(1, 3)
					op.Shared = g.some(p)
					op.Very = len(p.Shared) > 0 && r.P(0.3)
				}
			case r.P(pf.pLevel):
				op.Do = "level"
				op.Level = zcore.Pick(r, -8, -4, 0, 4, 8, 3, 12, -12, -100)
			case r.P(pf.pSkew):
				op.Do = zcore.Pick(r, "skew", "sleep")
				op.T = int64(r.Range(-5000, 5000))
				if op.Do == "sleep" {
					op.T = int64(r.N(1000))
				}
			default:
				op.Level = zcore.Pick(r, 0, 0, 0, 4, 8, -4, 12, 2, -1, 0, 0, 4, 8, -1000, 1000, 1, -8, -6, -5)
				op.Msg = zcore.Pick(r, texts...)
				op.Attrs = g.attrs(0, 4)
				op.Shared = g.some(p)
				op.T = int64(r.N(100_000_000))
				switch {
				case r.P(0.15):
					op.T = -1
				case again:
					op.T = zcore.Pick(r, int64(0), 0, 1, 1_000_000)
				case r.P(0.2):
					op.T = int64(r.N(1<<30)) * 86_400 * zcore.Pick(r, int64(10), 90)
				}
				if r.P(0.3) && op.T >= 0 {
					op.Ns = zcore.Pick(r, 1, 10, 100, 999, r.N(1000))
				}
				if r.P(0.3) {
					op.Zone = zcore.Pick(r, 60, -330, 845, 1)
				}
				op.Src = p.Opts.Source || p.Opts2.Source
				if r.P(0.1) {
					op.Ctx = r.Range(1, 4)
				}
				if r.P(0.1) {
					op.Also = r.Range(1, 16)
				}
			}
			ops = append(ops, op)
		}
		p.Clients = append(p.Clients, ops)
	}
	if r.P(pf.pFault) && !p.NewInRun {
		for i := r.Range(1, 4); i > 0; i-- {
			p.Faults = append(p.Faults, zsim.Fault{At: r.N(zcore.Pick(r, 10, 10, 10, 10, 10, 10, 40)), Kind: zcore.Pick(r, "err", "short", "stall", "panic"), N: r.N(200), Delay: r.N(50)})
		}
	}
	p.SelfDefault = !p.NewInRun && p.Opts.Replace != "bare" && !strings.HasPrefix(p.Opts.Replace, "fail-") && r.P(0.15)
	return p
}

// opts chooses the options of a handler.
func (pf *profile) opts(r *zcore.Rand, kind string) (o Opts) {
	switch r.N(6) {
	case 0:
		if pf.dynamic == 0 {
			o.Nil = true
		}
	case 1:
		o.NoLevel = true
	default:
		o.Level = zcore.Pick(r, -4, 0, 0, 0, 4, 2)
		if r.P(0.1) {
			o.Level = zcore.Pick(r, -8, -8, -2000, 12)
		}
	}
	if pf.newInRun {
		o.Nil = false
		o.NoLevel = r.P(0.6)
	}
	if r.P(pf.dynamic) {
		o.Nil, o.NoLevel, o.Dynamic = false, false, true
	}
	o.Source = r.P(0.15)
	o.Custom = r.P(0.25)
	if !o.Nil && r.P(pf.pReplace) {
		kinds := pf.replaceOf
		if kinds == nil {
			kinds = []string{"path", "path", "drop", "rename", "nolevel", "notime", "lib", "bare"}
		}
		o.Replace = zcore.Pick(r, kinds...)
		o.Source = o.Source || o.Replace == "fail-source"
	}
	if kind == "flash" && r.P(0.35) {
		o.Extras = true
		o.TimeFormat = zcore.Pick(r, "", "2006-01-02 15:04:05", "", "Jan _2 \"06\" 15:04 \\ MST")
		o.Names = r.P(0.5)
		o.Keys = r.P(0.4) && o.Replace != "nolevel" && o.Replace != "notime" && o.Replace != "bare" && !strings.HasPrefix(o.Replace, "fail-")
	}
	return o
}
