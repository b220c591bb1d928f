package zhandlers

import (
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"math"
	"net"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/internal/zsim"
	"github.com/madkins23/go-slog/replace"
)

// Val describes a value to be logged.
type Val struct {
	K string  `json:"k"`
	S string  `json:"s,omitempty"`
	I int64   `json:"i,omitempty"`
	F float64 `json:"f,omitempty"`
	G []Attr  `json:"g,omitempty"`
	N int     `json:"n,omitempty"` // length multiplier of a string
}

// Attr describes an attribute.
type Attr struct {
	Key string `json:"key"`
	V   Val    `json:"v"`
}

func (v Val) str() string {
	s := decode(v.S)
	if v.N > 1 && len(s) > 0 {
		return strings.Repeat(s, v.N)
	}
	return s
}

// decode replaces ‹c3› by the byte 0xc3: plans are JSON and can't hold broken UTF-8.
func decode(s string) string {
	if !strings.Contains(s, "‹") {
		return s
	}
	return markPattern.ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.ParseUint(m[len("‹"):len(m)-len("›")], 16, 8)
		return string([]byte{byte(n)})
	})
}

var markPattern = regexp.MustCompile("‹[0-9a-f]{2}›")

// env is what values with behaviour need.
type env struct {
	relog func(id string) // logs a record through a logger of the plan
	calls int             // of values with behaviour
	inner []string        // ids of the records logged from within values
	id    string
	no    int
}

// next id of a record logged from within a value.
func (e *env) again() {
	if e == nil || e.relog == nil {
		return
	}
	e.no++
	id := e.id + "~" + strconv.Itoa(e.no)
	e.inner = append(e.inner, id)
	zsim.Fired("re-entrant-log")
	e.relog(id)
}

type lvStr struct {
	s string
	e *env
	r bool
}

func (l lvStr) LogValue() slog.Value {
	zsim.User(1)
	if l.r {
		l.e.again()
	}
	return slog.StringValue(l.s)
}

// whose is the record that each task is logging, or the logger it derives.
var whose [64]string

func slot() *string { return &whose[(zsim.TaskID()+1)&63] }

// lvWho answers with the record that is being logged.
type lvWho struct{}

func (lvWho) LogValue() slog.Value { zsim.User(2); return slog.StringValue("for " + *slot()) }

type lvVal struct{ v slog.Value }

type lvPanic struct{}

func (lvPanic) LogValue() slog.Value { zsim.User(2); panic("injected: LogValue panics") }

type lvLoop struct{ n *int }

func (l lvLoop) LogValue() slog.Value { return slog.AnyValue(l) }

func (l lvVal) LogValue() slog.Value { zsim.User(2); return l.v }

type strer struct {
	s    string
	e    *env
	mode string
}

func (s strer) String() string {
	zsim.User(3)
	switch s.mode {
	case "relog":
		s.e.again()
	case "panic":
		zsim.Fired("value-panic")
		panic("injected: String panics")
	}
	return s.s
}

type jsoner struct {
	raw  string
	mode string
	e    *env
}

func (j jsoner) MarshalJSON() ([]byte, error) {
	zsim.User(4)
	switch j.mode {
	case "bad":
		zsim.Fired("marshal-error")
		return nil, errors.New("injected: MarshalJSON fails")
	case "panic":
		zsim.Fired("value-panic")
		panic("injected: MarshalJSON panics")
	case "relog":
		j.e.again()
	}
	return []byte(j.raw), nil
}

type texter struct {
	s    string
	mode string
	e    *env
}

func (t texter) MarshalText() ([]byte, error) {
	zsim.User(5)
	switch t.mode {
	case "bad":
		zsim.Fired("marshal-error")
		return nil, errors.New("injected: MarshalText fails")
	case "panic":
		zsim.Fired("value-panic")
		panic("injected: MarshalText panics")
	case "relog":
		t.e.again()
	}
	return []byte(t.s), nil
}

type pair struct {
	Name string `json:"name"`
	N    int64  `json:"n"`
}

var base = time.Date(2024, 2, 29, 12, 30, 15, 0, time.UTC)

// value makes the slog value.
func (v Val) value(e *env) slog.Value {
	switch v.K {
	case "str":
		return slog.StringValue(v.str())
	case "int":
		return slog.Int64Value(v.I)
	case "uint":
		return slog.Uint64Value(uint64(v.I))
	case "float":
		return slog.Float64Value(v.F)
	case "fodd":
		return slog.Float64Value([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[v.I%3])
	case "bool":
		return slog.BoolValue(v.I%2 == 1)
	case "dur":
		return slog.DurationValue(time.Duration(v.I))
	case "time":
		return slog.TimeValue(base.Add(time.Duration(v.I)))
	case "ztime":
		return slog.TimeValue(v.ztime())
	case "lvpanic":
		return slog.AnyValue(lvPanic{})
	case "lvloop":
		return slog.AnyValue(lvLoop{})
	case "bytes":
		return slog.AnyValue([]byte(v.str()))
	case "raw":
		return slog.AnyValue(json.RawMessage(v.jsonText()))
	case "mac":
		return slog.AnyValue(v.mac())
	case "ipnet":
		return slog.AnyValue(v.ipnet())
	case "group":
		return slog.GroupValue(attrsOf(v.G, e)...)
	case "anygroup":
		return slog.AnyValue(attrsOf(v.G, e))
	case "lvstr":
		return slog.AnyValue(lvStr{v.str(), e, false})
	case "lvrelog":
		return slog.AnyValue(lvStr{v.str(), e, true})
	case "lvwho":
		return slog.AnyValue(lvWho{})
	case "lvlv":
		return slog.AnyValue(lvVal{slog.AnyValue(lvStr{v.str(), e, false})})
	case "lvint":
		return slog.AnyValue(lvVal{slog.Int64Value(v.I)})
	case "lvdur":
		return slog.AnyValue(lvVal{slog.DurationValue(time.Duration(v.I))})
	case "lvtime":
		return slog.AnyValue(lvVal{slog.TimeValue(base.Add(time.Duration(v.I)))})
	case "lvgroup":
		return slog.AnyValue(lvVal{slog.GroupValue(attrsOf(v.G, e)...)})
	case "err":
		return slog.AnyValue(errors.New(v.str()))
	case "strer":
		return slog.AnyValue(strer{v.str(), e, ""})
	case "strerrelog":
		return slog.AnyValue(strer{v.str(), e, "relog"})
	case "strerpanic":
		return slog.AnyValue(strer{v.str(), e, "panic"})
	case "json":
		return slog.AnyValue(jsoner{v.jsonText(), "", e})
	case "jsonrelog":
		return slog.AnyValue(jsoner{v.jsonText(), "relog", e})
	case "jsonbad":
		return slog.AnyValue(jsoner{"", "bad", e})
	case "jsonpanic":
		return slog.AnyValue(jsoner{"", "panic", e})
	case "text":
		return slog.AnyValue(texter{v.str(), "", e})
	case "textrelog":
		return slog.AnyValue(texter{v.str(), "relog", e})
	case "textbad":
		return slog.AnyValue(texter{"", "bad", e})
	case "strs":
		return slog.AnyValue([]string{v.str(), "b"})
	case "map":
		return slog.AnyValue(map[string]any{"z": v.I, "a": v.str(), "m": true})
	case "struct":
		return slog.AnyValue(pair{v.str(), v.I})
	case "nil":
		return slog.AnyValue(nil)
	case "ip":
		return slog.AnyValue(net.IPv4(10, 0, byte(v.I>>8), byte(v.I)))
	case "func":
		return slog.AnyValue(func() {})
	}
	return slog.StringValue(v.str())
}

func (v Val) mac() net.HardwareAddr { return net.HardwareAddr{2, 0, byte(v.I), byte(v.I >> 8), 5, 6} }
func (v Val) ipnet() *net.IPNet {
	return &net.IPNet{IP: net.IPv4(10, byte(v.I), 0, 0), Mask: net.CIDRMask(16, 32)}
}
func (v Val) ztime() time.Time {
	return base.AddDate(int(v.I%9000), 0, 0).Add(time.Duration(v.I)).In(time.FixedZone("Z"+strconv.Itoa(v.N), v.N*60))
}

func (v Val) jsonText() string {
	b, _ := json.Marshal(pair{v.str(), v.I})
	return string(b)
}

func attrsOf(as []Attr, e *env) []slog.Attr {
	out := make([]slog.Attr, 0, len(as))
	for _, a := range as {
		if a.V.K == "empty" {
			out = append(out, slog.Attr{})
			continue
		}
		out = append(out, slog.Attr{Key: a.Key, Value: a.V.value(e)})
	}
	return out
}

// dump shows the structure of attributes as their owner sees it.
func dump(b *strings.Builder, as []slog.Attr) {
	for _, a := range as {
		b.WriteString(strconv.Quote(a.Key))
		b.WriteString(a.Value.Kind().String())
		switch a.Value.Kind() {
		case slog.KindGroup:
			b.WriteByte('{')
			dump(b, a.Value.Group())
			b.WriteByte('}')
		case slog.KindAny:
			fmt.Fprintf(b, "%T", a.Value.Any())
			if g, ok := a.Value.Any().([]slog.Attr); ok {
				dump(b, g)
			}
		case slog.KindLogValuer:
			fmt.Fprintf(b, "%T", a.Value.Any())
			if l, ok := a.Value.Any().(lvVal); ok {
				dump(b, []slog.Attr{{Value: l.v}})
			}
		default:
			b.WriteString(a.Value.String())
		}
	}
}

func (v Val) isGroup() bool { return v.K == "group" || v.K == "lvgroup" || v.K == "anygroup" }

// fate of a record that holds a value.
type fate struct {
	mustFail bool // cannot be encoded: an error is due and no line
	mayFail  bool // an error and no line, or a line with anything in that place
	mayPanic bool
}

func fateOf(as []Attr) (f fate) {
	for _, a := range as {
		switch a.V.K {
		case "func":
			f.mustFail = true
		case "jsonbad", "textbad":
			f.mayFail = true
		case "strerpanic", "jsonpanic":
			f.mayPanic = true
		case "group", "lvgroup", "anygroup":
			g := fateOf(a.V.G)
			f.mustFail = f.mustFail || g.mustFail
			f.mayFail = f.mayFail || g.mayFail
			f.mayPanic = f.mayPanic || g.mayPanic
		}
	}
	return
}

func (f fate) ok() bool { return !f.mustFail && !f.mayFail && !f.mayPanic }

func jsonNode(v any) *node {
	b, err := json.Marshal(v)
	if err != nil {
		return &node{kind: '?'}
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	n, err := parseValue(dec)
	if err != nil {
		return &node{kind: '?'}
	}
	return n
}

// model knows how a handler is to render things.
type model struct {
	id         string // of the record or derivation, for values that ask
	timeFormat string
	replace    *replacer
}

// expect renders a value.
func (m *model) expect(v Val, groups []string) *node {
	switch v.K {
	case "str", "lvstr", "lvrelog", "lvlv", "err", "strer", "strerrelog", "text", "textrelog":
		return str(v.str())
	case "int", "lvint", "dur", "lvdur":
		return num(strconv.FormatInt(v.I, 10))
	case "uint":
		return num(strconv.FormatUint(uint64(v.I), 10))
	case "float":
		return num(strconv.FormatFloat(v.F, 'e', -1, 64))
	case "bool":
		return &node{kind: 'b', s: strconv.FormatBool(v.I%2 == 1)}
	case "time", "lvtime":
		return str(base.Add(time.Duration(v.I)).Format(m.timeFormat))
	case "ztime":
		return str(v.ztime().Format(m.timeFormat))
	case "bytes":
		return jsonNode([]byte(v.str()))
	case "mac":
		return str(v.mac().String())
	case "ipnet":
		return str(v.ipnet().String())
	case "json", "jsonrelog", "raw":
		n := jsonNode(pair{v.str(), v.I})
		n.alt = str(v.jsonText())
		return n
	case "strs":
		return jsonNode([]string{v.str(), "b"})
	case "map":
		return jsonNode(map[string]any{"z": v.I, "a": v.str(), "m": true})
	case "struct":
		return jsonNode(pair{v.str(), v.I})
	case "nil":
		return &node{kind: 'z'}
	case "ip":
		return str(net.IPv4(10, 0, byte(v.I>>8), byte(v.I)).String())
	case "jsonbad":
		return &node{kind: '~', s: "injected: MarshalJSON fails"}
	case "textbad":
		return &node{kind: '~', s: "injected: MarshalText fails"}
	case "strerpanic", "jsonpanic", "func", "fodd", "lvpanic", "lvloop":
		return &node{kind: '?'}
	}
	return str(v.str())
}

// fields renders attributes; groups is the path of open groups of the logger.
func (m *model) fields(as []Attr, groups []string, lax bool) []field {
	var out []field
	failed := lax
	for _, a := range as {
		if a.V.K == "empty" {
			continue
		}
		key := a.Key
		v := a.V
		if v.K == "lvwho" {
			v = Val{K: "str", S: "for " + m.id}
		}
		if m.replace != nil && !v.isGroup() {
			var drop bool
			key, v, drop = m.replace.apply(groups, key, v)
			if drop {
				continue
			}
		}
		f := fateOf([]Attr{{Key: key, V: v}})
		if v.isGroup() {
			path := groups
			if key != "" {
				path = append(append([]string(nil), groups...), key)
			}
			kids := m.fields(v.G, path, failed)
			if key == "" {
				if !f.ok() {
					for i := range kids {
						kids[i].opt = true
					}
					failed = true
				}
				out = append(out, kids...)
				continue
			}
			if len(kids) == 0 {
				continue
			}
			n := &node{kind: 'o', fields: kids, group: true}
			if !f.ok() {
				n = &node{kind: '?'}
			}
			out = append(out, field{key: key, val: n, opt: failed || !f.ok()})
		} else {
			out = append(out, field{key: key, val: m.expect(v, groups), opt: failed || !f.ok()})
		}
		if !f.ok() {
			failed = true // what follows in the same call may be missing, too
		}
	}
	return out
}

// replacer is a ReplaceAttr function, and its model.
type replacer struct {
	kind string
	bad  string
}

func isBasic(key string) bool {
	for _, n := range basicNames {
		if n == key {
			return true
		}
	}
	return false
}

// fn is the function given to the handler.
func (r *replacer) fn(groups []string, a slog.Attr) slog.Attr {
	zsim.User(6)
	if k := a.Value.Kind(); k == slog.KindGroup || k == slog.KindLogValuer {
		r.bad = "called for " + a.String() + " of kind " + k.String()
	}
	switch r.kind {
	case "drop":
		if strings.HasPrefix(a.Key, "d") {
			return slog.Attr{}
		}
	case "rename":
		if strings.HasPrefix(a.Key, "r") {
			a.Key = "R" + a.Key
		}
	case "path":
		// The path of groups becomes visible in the value.
		if k := a.Value.Kind(); (k == slog.KindString || k == slog.KindInt64) && (len(groups) > 0 || !isBasic(a.Key)) {
			a.Value = slog.StringValue(strings.Join(groups, ">") + "=" + a.Value.String())
		}
		zsim.User(7)
	case "lib":
		return libReplace(groups, a)
	case "nolevel":
		if a.Key == slog.LevelKey && len(groups) == 0 {
			return slog.Attr{}
		}
	case "bare":
		if len(groups) == 0 && isBasic(a.Key) {
			return slog.Attr{}
		}
	case "notime":
		if a.Key == slog.TimeKey && len(groups) == 0 {
			return slog.Attr{}
		}
	default:
		if len(groups) == 0 && r.fails(a.Key, a.Value.Resolve()) {
			zsim.Fired("marshal-error")
			a.Value = slog.AnyValue(func() {})
		}
	}
	return a
}

// fails tells whether a built-in attribute becomes a value that can't be encoded.
func (r *replacer) fails(key string, v slog.Value) bool {
	switch {
	case r.kind == "fail-time" && key == slog.TimeKey:
		return v.Time().Sub(base)/time.Microsecond%2 == 0
	case r.kind == "fail-level" && key == slog.LevelKey:
		return len(v.String())%2 == 1
	case r.kind == "fail-msg" && key == slog.MessageKey:
		return len(v.String())%3 == 0
	}
	return r.kind == "fail-source" && key == slog.SourceKey
}

// libReplace is made of the functions of go-slog's own package replace.
var libReplace = replace.Multiple(
	replace.RemoveKey("drop", true, nil),
	replace.ChangeKey("ren", "RENAMED", false, nil),
	replace.ChangeCase(slog.LevelKey, replace.CaseLower, false, replace.TopCheck),
	replace.ChangeValue("cv", replace.SetValueTo(slog.StringValue("set")), false, replace.Current("g1")),
)

// apply is the model of fn.
func (r *replacer) apply(groups []string, key string, v Val) (string, Val, bool) {
	switch r.kind {
	case "drop":
		return key, v, strings.HasPrefix(key, "d")
	case "rename":
		if strings.HasPrefix(key, "r") {
			key = "R" + key
		}
	case "lib":
		switch {
		case strings.EqualFold(key, "drop"):
			return key, v, true
		case key == "ren":
			key = "RENAMED"
		case key == "cv" && len(groups) > 0 && groups[len(groups)-1] == "g1":
			v = Val{K: "str", S: "set"}
		}
	case "nolevel":
		return key, v, key == slog.LevelKey && len(groups) == 0
	case "notime":
		return key, v, key == slog.TimeKey && len(groups) == 0
	case "bare":
		return key, v, isBasic(key) && len(groups) == 0
	case "path":
		if len(groups) == 0 && isBasic(key) {
			break
		}
		switch v.K {
		case "str", "lvstr", "lvlv", "lvrelog":
			return key, Val{K: "str", S: strings.Join(groups, ">") + "=" + v.str()}, false
		case "int", "lvint":
			return key, Val{K: "str", S: strings.Join(groups, ">") + "=" + strconv.FormatInt(v.I, 10)}, false
		}
	}
	return key, v, false
}
