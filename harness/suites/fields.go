package zsuites

import (
	"bytes"
	"context"
	stdjson "encoding/json"
	"fmt"
	"log/slog"
	"maps"
	"reflect"
	"slices"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// fcMember is a member of the object of a line.
type fcMember struct {
	Name  int      `json:"name"`
	Value *fcValue `json:"value"`
}

type fcValue struct {
	Kind  int        `json:"kind"` // 0 text, 1 number, 2 keyword, 3 object, 4 array
	Pick  int        `json:"pick"`
	Long  int        `json:"long,omitempty"` // how many times the text is repeated besides
	Inner []fcMember `json:"inner"`
}

type fcLine struct {
	Members []fcMember `json:"members"`
	Maker   int        `json:"maker"` // -1: composed here; else logged with that creator
	Space   int        `json:"space"` // white space between tokens
	Cut     int        `json:"cut"`   // the writer crashed after so many bytes; 0: it did not
	After   int        `json:"after"` // what follows the line
}

type fcPlan struct {
	Threads [][]fcLine `json:"threads"`
	Shared  bool       `json:"shared"` // the threads' lines go to one destination, and are counted afterwards
}

var (
	fcNames = []string{"a", "b", "c", "time", "level", "msg", "fields", "Fields", "a b", "", "é", "日本", "x:y", "x,y", "{", "}", "[", "1", "true", "a'b", "A", "😀", "field", "%d"}
	// fcEscaped are names that JSON has to escape, as they are written.
	fcEscaped  = []string{`q\"q`, `back\\`, `\\\"`, `tab\t`, `\u0041`, `\\`, `\n`, `\"`, `a\/b`}
	fcTexts    = []string{"", "x", `\"`, `\\`, `a,b`, `}`, `{\"a\":1}`, `]`, `:`, "é日本😀", `\u00e9`, `\\\\\"`, `fields`, ` `, `\"a\":`, "true"}
	fcNumbers  = []string{"0", "1", "-1", "3.14", "1e5", "1E+5", "-2.5e-7", "12345678901234567890", "0.0", "-0"}
	fcKeywords = []string{"true", "false", "null"}
	fcSpaces   = []string{"", " ", "\n", "\t ", "\r\n  "}
	fcAfter    = []string{"", "\n", "\n{\"a\":1,\"a\":2}\n", "   "}
)

func genFcMembers(r *zcore.Rand, depth int) []fcMember {
	var out []fcMember
	few := r.P(0.5)
	n := r.Range(0, 7)
	if r.P(0.004) {
		n = r.Range(20, 150)
		depth = min(depth, 1)
	}
	for i := n; i > 0; i-- {
		m := fcMember{Name: r.N(len(fcNames) + len(fcEscaped)), Value: genFcValue(r, depth)}
		if few {
			m.Name = r.N(7)
		}
		out = append(out, m)
	}
	return out
}

func genFcValue(r *zcore.Rand, depth int) *fcValue {
	v := &fcValue{Kind: zcore.Pick(r, 0, 0, 1, 1, 2, 3, 3, 4), Pick: r.N(100)}
	if depth == 0 {
		v.Kind %= 3
	}
	if r.P(0.003) {
		v.Long = r.Range(10, 2000)
	}
	if v.Kind >= 3 {
		v.Inner = genFcMembers(r, depth-1)
	}
	return v
}

func genFcPlan(r *zcore.Rand) any {
	p := &fcPlan{Shared: r.P(0.5)}
	for i := r.Range(1, 3); i > 0; i-- {
		var lines []fcLine
		for j := r.Range(1, 4); j > 0; j-- {
			l := fcLine{Members: genFcMembers(r, zcore.Pick(r, 0, 1, 2, 3, r.Range(0, 7))), Maker: -1, Space: zcore.Pick(r, 0, 0, 0, r.N(len(fcSpaces)))}
			if r.P(0.5) {
				l.Maker = r.N(4)
			}
			if r.P(0.25) {
				l.Cut = r.Range(1, 300)
			}
			l.After = r.N(len(fcAfter))
			lines = append(lines, l)
		}
		p.Threads = append(p.Threads, lines)
	}
	return p
}

func fcName(i int) string {
	if i < len(fcNames) {
		return fcNames[i]
	}
	return fcEscaped[(i-len(fcNames))%len(fcEscaped)]
}

// compose writes an object and counts its names, as they are written.
func fcCompose(b *strings.Builder, members []fcMember, sp string, count func(string)) {
	b.WriteString("{" + sp)
	for i, m := range members {
		if i > 0 {
			b.WriteString(sp + "," + sp)
		}
		name := fcName(m.Name)
		b.WriteString(`"` + name + `"` + sp + ":" + sp)
		inner := func(string) {}
		if count != nil {
			if name == "fields" && m.Value.Kind == 3 {
				// The members of such an object count like those around it; what was counted of the name itself is forgotten.
				count("-fields")
				inner = count
			} else {
				count(name)
			}
		}
		fcValueText(b, m.Value, sp, inner)
	}
	b.WriteString(sp + "}")
}

func fcValueText(b *strings.Builder, v *fcValue, sp string, count func(string)) {
	switch v.Kind {
	case 0:
		b.WriteString(`"` + v.text() + `"`)
	case 1:
		b.WriteString(fcNumbers[v.Pick%len(fcNumbers)])
	case 2:
		b.WriteString(fcKeywords[v.Pick%len(fcKeywords)])
	case 3:
		fcCompose(b, v.Inner, sp, count)
	case 4:
		b.WriteString("[" + sp)
		for i, m := range v.Inner {
			if i > 0 {
				b.WriteString(sp + "," + sp)
			}
			fcValueText(b, m.Value, sp, func(string) {})
		}
		b.WriteString(sp + "]")
	}
}

func (v *fcValue) text() string {
	return strings.Repeat(fcTexts[v.Pick%len(fcTexts)], 1+v.Long)
}

// attr makes of a member what a handler writes in the same way.
func (m *fcMember) attr() slog.Attr {
	name := fcName(m.Name % len(fcNames))
	v := m.Value
	switch v.Kind {
	case 0:
		return slog.String(name, v.text())
	case 1:
		return slog.Int(name, v.Pick-50)
	case 2:
		return slog.Any(name, []any{nil, true, false}[v.Pick%3])
	case 3:
		var in []any
		for i := range v.Inner {
			in = append(in, v.Inner[i].attr())
		}
		return slog.Group(name, in...)
	}
	var list []any
	for _, i := range v.Inner {
		list = append(list, i.Value.Pick, fcTexts[i.Value.Pick%len(fcTexts)])
	}
	return slog.Any(name, list)
}

// fcCount counts the names of the first object in a line with encoding/json, which undoes escapes.
func fcCount(line []byte) (map[string]uint, error) {
	counts := make(map[string]uint)
	d := stdjson.NewDecoder(bytes.NewReader(line))
	return counts, fcObject(d, counts, true)
}

// fcObject reads an object; its names are counted if so said.
func fcObject(d *stdjson.Decoder, counts map[string]uint, count bool) error {
	if _, err := d.Token(); err != nil { // {
		return err
	}
	for d.More() {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		name := tok.(string)
		if count {
			counts[name]++
		}
		var raw stdjson.RawMessage
		if err := d.Decode(&raw); err != nil {
			return err
		}
		if count && name == "fields" && raw[0] == '{' {
			delete(counts, name)
			if err := fcObject(stdjson.NewDecoder(bytes.NewReader(raw)), counts, true); err != nil {
				return err
			}
		}
	}
	_, err := d.Token()
	return err
}

func runFcPlan(plan any, x *zcore.Exec) {
	p := plan.(*fcPlan)
	type counted struct {
		src  []byte
		want map[string]uint // nil: a part of a line
		full map[string]uint
		got  func(*zcore.Exec)
	}
	results := make([][]*counted, len(p.Threads))
	var mu sync.Mutex
	var all bytes.Buffer
	s := x.Sim()
	for i := range p.Threads {
		lines := p.Threads[i]
		s.Spawn(fmt.Sprintf("counter%d", i), func() {
			for j := range lines {
				l := &lines[j]
				c := &counted{}
				if l.Maker < 0 {
					c.want = make(map[string]uint)
					var b strings.Builder
					fcCompose(&b, l.Members, fcSpaces[l.Space%len(fcSpaces)], func(name string) {
						if name == "-fields" {
							delete(c.want, "fields")
						} else {
							c.want[name]++
						}
					})
					c.src = []byte(b.String())
				} else {
					var b bytes.Buffer
					cr := makers[l.Maker%4].make()
					h := cr.NewHandler(&b, nil)
					rec := slog.NewRecord(zsim.Now(), slog.LevelInfo, "a message", 0)
					for k := range l.Members {
						rec.AddAttrs(l.Members[k].attr())
					}
					if err := h.Handle(context.Background(), rec); err != nil {
						continue
					}
					c.src = bytes.TrimRight(b.Bytes(), "\r\n ")
					want, err := fcCount(c.src)
					if err != nil {
						x.Fail("bad-line", "%q: %v", c.src, err)
						continue
					}
					c.want = want
				}
				runes := utf8.RuneCount(c.src)
				c.full = c.want
				if l.Cut > 0 && l.Cut < len(c.src) {
					c.src = c.src[:l.Cut]
					c.want = nil
				}
				src := append(c.src[:len(c.src):len(c.src)], fcAfter[l.After%len(fcAfter)]...)
				if c.want == nil {
					src = c.src
				}
				if p.Shared {
					mu.Lock()
					all.Write(src)
					src = bytes.Clone(all.Bytes()[all.Len()-len(src):])
					mu.Unlock()
				}
				parsed, perr := json.Parse(bytes.Clone(src))
				expected := json.Expect(string(src))
				ctr := json.NewFieldCounter(src)
				err := ctr.Parse()
				fields, num, dups, text := ctr.Fields(), ctr.NumFields(), ctr.Duplicates(), ctr.String()
				c.got = func(x *zcore.Exec) {
					x.Count("lines", 1)
					var full map[string]any
					if ferr := stdjson.Unmarshal(src, &full); (ferr == nil) != (perr == nil) {
						x.Fail("wrong-parse", "%q: error %v instead of %v", src, perr, ferr)
					} else if ferr == nil && (!reflect.DeepEqual(parsed, full) || !reflect.DeepEqual(expected, full)) {
						x.Fail("wrong-parse", "%q: parsed %v, expected %v instead of %v", src, parsed, expected, full)
					} else if ferr != nil && (len(expected) != 1 || expected["error"] == nil) {
						x.Fail("wrong-parse", "%q: %v instead of the error %v", src, expected, ferr)
					}
					if c.want == nil {
						x.Count("torn lines", 1)
						if bytes.Contains(c.src, []byte(`"fields"`)) {
							return
						}
						// All names that are there in full are counted, and at most the one that is torn besides.
						want := make(map[string]uint)
						_ = fcObject(stdjson.NewDecoder(bytes.NewReader(c.src)), want, true)
						got := make(map[string]uint)
						var extra uint
						for _, name := range fields {
							n := max(dups[name], 1)
							full := fcUnescape(name)
							got[full] += n
							if got[full] > want[full] {
								extra += got[full] - max(want[full], got[full]-n)
								if extra > 1 || !strings.HasSuffix(string([]rune(string(c.src))), `"`+name) {
									x.Fail("wrong-count", "%q, a part of a line: name %q is there %d times", src, name, got[full])
								}
							}
						}
						for name, n := range want {
							if err == nil && got[name] < n {
								x.Fail("wrong-count", "%q, a part of a line: name %q is there %d times, not %d", src, name, got[name], n)
							}
						}
						return
					}
					if err != nil {
						x.Fail("error", "%q: %v", src, err)
						return
					}
					got := make(map[string]uint)
					for _, f := range fields {
						got[fcRaw(f, l)] = 1
					}
					want := make(map[string]uint)
					for name, n := range c.want {
						if n > 1 {
							want[name] = n
							x.Count("duplicates", 1)
						}
					}
					gotDups := make(map[string]uint)
					for name, n := range dups {
						gotDups[fcRaw(name, l)] = n
					}
					if a, b := slices.Sorted(maps.Keys(got)), slices.Sorted(maps.Keys(c.want)); !slices.Equal(a, b) || len(fields) != len(got) || int(num) != len(fields) || !slices.IsSorted(fields) {
						x.Fail("wrong-fields", "%q: %d fields %q instead of %q", src, num, fields, b)
					}
					if !maps.Equal(gotDups, want) {
						x.Fail("wrong-duplicates", "%q: duplicates %v instead of %v", src, dups, want)
					}
					word := "fields"
					if num == 1 {
						word = "field"
					}
					tail := fmt.Sprintf("' %d %s, no duplicates", num, word)
					if len(want) > 0 {
						tail = fmt.Sprintf("' %d %s,", num, word)
					}
					if !strings.HasPrefix(text, fmt.Sprintf("@%d '", runes)) || !strings.Contains(text, "<^>") || !strings.Contains(text, tail) {
						x.Fail("wrong-status", "%q: after %d runes: %s (not %s)", src, runes, text, tail)
					}
					if _, shown, ok := strings.Cut(text, " '"); ok {
						rs := []rune(strings.ReplaceAll(string(src), "\n", " "))
						next := string(rs[runes:min(len(rs), runes+15)])
						if len(rs) < runes+15 {
							next += "<EOF>"
						}
						past, ok := strings.CutSuffix(strings.Split(shown, tail)[0], "<^>"+next)
						if n := utf8.RuneCountInString(past); !ok || !strings.HasSuffix(string(rs[:runes]), past) || n > 20 || n < min(runes, 9) {
							x.Fail("wrong-status", "%q: after %d runes: %s (not what is around there)", src, runes, text)
						}
					}
					for name, n := range dups {
						if !strings.Contains(text, fmt.Sprintf(" %s:%d", name, n)) {
							x.Fail("wrong-status", "%q: %s does not tell of %s:%d", src, text, name, n)
						}
					}
				}
				results[i] = append(results[i], c)
			}
		})
	}
	if !x.RunSim(s) {
		return
	}
	for _, list := range results {
		for _, c := range list {
			x.Note(string(c.src))
			c.got(x)
		}
	}
}

// fcRaw undoes the escapes of a name that a handler wrote.
func fcRaw(name string, l *fcLine) string {
	if l.Maker < 0 {
		return name
	}
	return fcUnescape(name)
}

// fcUnescape undoes the escapes of a name, unless it is torn.
func fcUnescape(name string) string {
	var s string
	if err := stdjson.Unmarshal([]byte(`"`+name+`"`), &s); err != nil {
		return name
	}
	return s
}

var fieldProp = &zcore.Prop{ID: "C23", Gen: genFcPlan, New: func() any { return &fcPlan{} }, Run: runFcPlan,
	Quick: 8000, Thorough: 800000, Length: 2000, MaxPts: 1_000_000,
	Rule: "lines composed at random or logged by handlers at the same time, whole or torn by a crash of the writer, whose names are counted",
	Real: []string{"internal/json", "handlers/flash", "handlers/sloggy", "replace", "creator/*", "log/slog"},
	Stub: []string{"destination", "goroutine scheduler"}}
