// Package zsuites simulates go-slog's own suites: the verification and the benchmark suite, run
// against simulated handlers that break slog's rules in chosen ways, and the parts they are made of.
package zsuites

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/madkins23/go-slog/internal/zsim"
)

// Dev says in which ways a simulated handler differs from what slog asks for: it maps the name of a
// deviation (see verify.go) to a variant.
type Dev map[string]int

func (d Dev) has(name string) bool { _, ok := d[name]; return ok }

// field is one member of an object that is being composed.
type field struct {
	key string
	val any // []field, or what encoding/json encodes
}

// step is one WithAttrs or WithGroup.
type step struct {
	group string
	attrs []slog.Attr
}

// simHandler is a small, complete slog handler that writes JSON without duplicate names, and
// deviates from that as told.
type simHandler struct {
	dev   Dev
	w     io.Writer
	mu    *sync.Mutex
	opts  slog.HandlerOptions
	level slog.Leveler
	steps []step
	sleep time.Duration
	parts int // number of Writes for a line
	// nolock: the writer is one that several threads may use at once.
	nolock bool
	lines  *atomic.Int64
}

func newSimHandler(w io.Writer, o *slog.HandlerOptions, dev Dev) *simHandler {
	h := &simHandler{dev: dev, w: w, mu: &sync.Mutex{}, lines: new(atomic.Int64)}
	if o != nil {
		h.opts = *o
	}
	h.level = h.opts.Level
	if h.level == nil {
		h.level = slog.LevelInfo
		switch v, ok := dev["defaultLevel"]; {
		case ok && v == 0:
			h.level = slog.LevelDebug
		case ok && v == 1:
			h.level = slog.LevelWarn
		case ok && v == 2:
			h.level = slog.LevelError
		}
	}
	if dev.has("levelVar") {
		h.level = h.level.Level() // what it is now, for ever
	}
	if dev.has("noReplace") {
		h.opts.ReplaceAttr = nil
	}
	return h
}

func (h *simHandler) Enabled(_ context.Context, l slog.Level) bool {
	if h.dev.has("enabledAll") {
		return true
	}
	if h.dev.has("levelMath") {
		// Only the four names are known; what is between them counts as the next one below or above.
		if h.dev["levelMath"] == 0 {
			l = bucket(l)
		} else if l != bucket(l) {
			return false
		}
	}
	return l >= h.level.Level()
}

func bucket(l slog.Level) slog.Level {
	switch {
	case l < slog.LevelInfo:
		return slog.LevelDebug
	case l == slog.LevelInfo:
		return slog.LevelInfo
	case l <= slog.LevelInfo+3:
		return slog.LevelDebug
	case l == slog.LevelWarn:
		return slog.LevelWarn
	case l < slog.LevelError:
		return slog.LevelInfo
	}
	return slog.LevelError
}

func (h *simHandler) derive(s step) slog.Handler {
	c := h
	if !h.dev.has("parent") {
		d := *h
		c = &d
	}
	c.steps = append(h.steps[:len(h.steps):len(h.steps)], s)
	return c
}

func (h *simHandler) WithAttrs(a []slog.Attr) slog.Handler {
	if len(a) == 0 {
		return h
	}
	if v, ok := h.dev["withLost"]; ok && (v == 0 || len(h.steps) > 0) {
		return h
	}
	return h.derive(step{attrs: a})
}

func (h *simHandler) WithGroup(n string) slog.Handler {
	if n == "" && !h.dev.has("groupInline") {
		return h
	}
	if h.dev.has("withGroupLost") {
		return h
	}
	return h.derive(step{group: "g" + n})
}

func (h *simHandler) Handle(ctx context.Context, r slog.Record) error {
	if h.dev.has("canceled") && ctx.Err() != nil {
		return nil
	}
	if h.sleep > 0 {
		zsim.Sleep(h.sleep)
	}
	var root []field
	builtin := func(key string, a slog.Attr, val any) {
		if h.opts.ReplaceAttr == nil || h.dev.has("noReplBasic") {
			root = append(root, field{key, val})
			return
		}
		if n := h.opts.ReplaceAttr(nil, a); n.Key != a.Key || !n.Value.Equal(a.Value) {
			if !n.Equal(slog.Attr{}) || h.dev.has("emptyAttr") {
				root = append(root, field{n.Key, h.value(n.Value, nil)})
			}
			return
		}
		root = append(root, field{key, val})
	}
	if !r.Time.IsZero() || h.dev.has("zeroTime") {
		if v, ok := h.dev["noTime"]; !ok || v == 1 {
			var val any = r.Time.Format(time.RFC3339Nano)
			if ok {
				val = "today"
			}
			builtin(slog.TimeKey, slog.Time(slog.TimeKey, r.Time), val)
		}
	}
	name := r.Level.String()
	if h.dev.has("levelLower") {
		name = strings.ToLower(name)
	}
	if h.dev.has("levelWrong") && r.Level == slog.LevelWarn {
		name = "WARNING"
	}
	if !h.dev.has("noLevel") {
		builtin(slog.LevelKey, slog.Any(slog.LevelKey, r.Level), name)
	}
	msgKey := slog.MessageKey
	if h.dev.has("message") {
		msgKey = "message"
	}
	msg := r.Message
	if h.dev.has("msgCut") && len(msg) > 8 {
		msg = msg[:8]
	}
	builtin(msgKey, slog.String(msgKey, r.Message), msg)
	if h.opts.AddSource {
		h.source(r, builtin)
	}
	for _, f := range h.body(r) {
		root = append(root, f)
	}
	if !h.dev.has("dups") {
		root = dedup(root)
	}
	var b bytes.Buffer
	if err := encode(&b, root, h.dev); err != nil {
		return err
	}
	b.WriteByte('\n')
	if h.dev.has("broken") {
		b.Truncate(b.Len() - 2)
		b.WriteByte('\n')
	}
	if !h.nolock {
		h.mu.Lock()
		defer h.mu.Unlock()
	}
	n := int(h.lines.Add(1))
	if v, ok := h.dev["lineLost"]; ok && n%(v+3) == 0 {
		return nil
	}
	line := b.Bytes()
	if v, ok := h.dev["lineTwice"]; ok && n%(v+3) == 0 {
		line = append(bytes.Clone(line), line...)
		if _, err := h.w.Write(line[:len(line)/2]); err != nil {
			return err
		}
		_, err := h.w.Write(line[len(line)/2:])
		return err
	}
	for i := h.parts; i > 1 && len(line) > 1; i-- {
		n := len(line) / i
		if _, err := h.w.Write(line[:n]); err != nil {
			return err
		}
		line = line[n:]
	}
	_, err := h.w.Write(line)
	return err
}

func (h *simHandler) source(r slog.Record, builtin func(string, slog.Attr, any)) {
	if r.PC == 0 && !h.dev.has("zeroPC") {
		return
	}
	f, _ := runtime.CallersFrames([]uintptr{r.PC}).Next()
	src := []field{{"function", f.Function}, {"file", f.File}, {"line", f.Line}}
	if v, ok := h.dev["source"]; ok {
		switch v {
		case 0:
			return
		case 1:
			builtin(slog.SourceKey, slog.Attr{Key: slog.SourceKey}, nil)
			return
		case 2:
			builtin(slog.SourceKey, slog.String(slog.SourceKey, "x"), fmt.Sprintf("%s:%d", f.File, f.Line))
			return
		default: // one of the three is missing
			src = append(src[:v%3:v%3], src[v%3+1:]...)
		}
	}
	if h.dev.has("caller") {
		builtin("caller", slog.String("caller", "x"), fmt.Sprintf("%s:%d", f.File, f.Line))
		return
	}
	builtin(slog.SourceKey, slog.Any(slog.SourceKey, &slog.Source{Function: f.Function, File: f.File, Line: f.Line}), src)
}

// body composes all but the built-in members.
func (h *simHandler) body(r slog.Record) []field {
	steps := h.steps
	var own []slog.Attr
	r.Attrs(func(a slog.Attr) bool {
		own = append(own, a)
		return true
	})
	if h.dev.has("groupMsgTop") {
		// WithGroup(g).With(a).Info(m, b): b leaves the group.
		if n := len(steps); n >= 2 && steps[n-1].group == "" && steps[n-2].group != "" && len(own) > 0 {
			rest := h.compose(steps, nil, nil)
			return append(rest, h.attrs(own, nil)...)
		}
	}
	return h.compose(steps, own, nil)
}

func (h *simHandler) compose(steps []step, own []slog.Attr, groups []string) []field {
	if len(steps) == 0 {
		return h.attrs(own, groups)
	}
	s := steps[0]
	if s.group == "" {
		out := h.attrs(s.attrs, groups)
		return append(out, h.compose(steps[1:], own, groups)...)
	}
	name := s.group[1:]
	if h.dev.has("withGroupTop") {
		// What With adds after WithGroup goes to the top level.
		if len(steps) > 1 && steps[1].group == "" {
			out := h.attrs(steps[1].attrs, groups)
			inner := h.compose(steps[2:], own, append(groups[:len(groups):len(groups)], name))
			if len(inner) > 0 {
				out = append(out, field{name, inner})
			}
			return out
		}
	}
	inner := h.compose(steps[1:], own, append(groups[:len(groups):len(groups)], name))
	if len(inner) == 0 && !h.dev.has("withGroupEmpty") && name != "" {
		return nil
	}
	if inner == nil {
		inner = []field{}
	}
	if h.dev.has("siblings") {
		// The groups do not nest: each is a member of the top level.
		if len(groups) == 0 {
			out := []field{{name, nil}}
			var top []field
			for _, f := range inner {
				if sub, ok := f.val.([]field); ok && len(steps) > 1 {
					top = append(top, field{f.key, sub})
				} else {
					out[0].val = append(asFields(out[0].val), f)
				}
			}
			if out[0].val == nil {
				out = nil
			}
			return append(out, top...)
		}
	}
	return []field{{name, inner}}
}

func asFields(v any) []field {
	f, _ := v.([]field)
	return f
}

func (h *simHandler) attrs(list []slog.Attr, groups []string) []field {
	var out []field
	for _, a := range list {
		v := a.Value
		if !h.dev.has("resolve") {
			v = v.Resolve()
		}
		if h.opts.ReplaceAttr != nil && v.Kind() != slog.KindGroup {
			g := groups
			if h.dev.has("replGroup") {
				switch h.dev["replGroup"] {
				case 0:
					g = nil
				case 1:
					if len(g) > 0 {
						g = g[:len(g)-1]
					}
				}
			}
			if !(h.dev.has("replNotTop") && len(groups) == 0) {
				a = h.opts.ReplaceAttr(g, slog.Attr{Key: a.Key, Value: v})
				v = a.Value
				if !h.dev.has("resolve") {
					v = v.Resolve()
				}
			}
		}
		if a.Key == "" && v.Kind() == slog.KindAny && v.Any() == nil && !h.dev.has("emptyAttr") {
			continue
		}
		if v.Kind() == slog.KindGroup {
			if a.Key == "group" && h.dev.has("groupLost") {
				continue
			}
			if a.Key == "" && !h.dev.has("groupInline") {
				out = append(out, h.attrs(v.Group(), groups)...)
				continue
			}
			inner := h.attrs(v.Group(), append(groups[:len(groups):len(groups)], a.Key))
			if len(inner) == 0 && !h.dev.has("groupEmpty") {
				continue
			}
			if inner == nil {
				inner = []field{}
			}
			out = append(out, field{a.Key, inner})
			continue
		}
		isNil := v.Kind() == slog.KindAny && v.Any() == nil
		if h.dev.has("noEmptyName") && a.Key == "" && !isNil {
			continue
		}
		if h.dev.has("noNil") && isNil && a.Key != "" {
			continue
		}
		out = append(out, field{a.Key, h.value(v, groups)})
	}
	return out
}

// value is what encoding/json gets for a value.
func (h *simHandler) value(v slog.Value, groups []string) any {
	switch v.Kind() {
	case slog.KindDuration:
		d := v.Duration()
		if h.dev.has("groupDuration") && len(groups) > 0 {
			return int64(d)
		}
		switch {
		case h.dev.has("durString"):
			return d.String()
		case h.dev.has("durSeconds"):
			return d.Seconds()
		case h.dev.has("durMillis") || h.dev.has("groupDuration"):
			return d.Milliseconds()
		}
		return int64(d)
	case slog.KindTime:
		switch {
		case h.dev.has("timeMillis"):
			return v.Time().Format("2006-01-02T15:04:05.999Z07:00")
		case h.dev.has("timeSeconds"):
			return v.Time().Format(time.RFC3339)
		}
		return v.Time().Format(time.RFC3339Nano)
	case slog.KindInt64, slog.KindUint64:
		if h.dev.has("numString") {
			return v.String()
		}
		if h.dev.has("unsigned") && v.Kind() == slog.KindInt64 && v.Int64() < 0 {
			return -v.Int64()
		}
		return v.Any()
	case slog.KindFloat64:
		if h.dev.has("floatShort") {
			return json.Number(fmt.Sprintf("%.4f", v.Float64()))
		}
		return v.Float64()
	case slog.KindBool:
		if h.dev.has("boolString") {
			return v.String()
		}
		return v.Bool()
	case slog.KindLogValuer:
		return map[string]any{} // what encoding/json makes of one with unexported fields
	case slog.KindGroup:
		return h.attrs(v.Group(), groups)
	case slog.KindAny:
		if _, ok := v.Any().(map[string]any); ok && h.dev.has("stringAny") {
			raw, _ := json.Marshal(v.Any())
			return string(raw)
		}
		if err, ok := v.Any().(error); ok {
			return err.Error()
		}
		if l, ok := v.Any().(slog.Level); ok {
			return l.String()
		}
		if _, ok := v.Any().(json.Marshaler); ok {
			return v.Any()
		}
		if s, ok := v.Any().(fmt.Stringer); ok {
			return s.String()
		}
		if h.dev.has("stringAny") && reflect.Indirect(reflect.ValueOf(v.Any())).Kind() == reflect.Struct {
			raw, _ := json.Marshal(v.Any())
			return string(raw)
		}
		return v.Any()
	}
	return v.String()
}

// dedup leaves the last member of each name, and merges nothing.
func dedup(in []field) []field {
	out := make([]field, 0, len(in))
	at := make(map[string]int)
	for _, f := range in {
		if sub, ok := f.val.([]field); ok {
			f.val = dedup(sub)
		}
		if i, ok := at[f.key]; ok {
			out[i] = f
			continue
		}
		at[f.key] = len(out)
		out = append(out, f)
	}
	return out
}

func encode(b *bytes.Buffer, fields []field, dev Dev) error {
	b.WriteByte('{')
	for i, f := range fields {
		if i > 0 {
			b.WriteByte(',')
		}
		if err := encodeAny(b, f.key, nil); err != nil {
			return err
		}
		b.WriteByte(':')
		if sub, ok := f.val.([]field); ok {
			if err := encode(b, sub, dev); err != nil {
				return err
			}
			continue
		}
		if s, ok := f.val.(string); ok && dev.has("escape") {
			s = strings.ToValidUTF8(s, "?")
			f.val = strings.Map(func(r rune) rune {
				if r == '\t' || r == '\b' || r > 0xFFFF {
					return -1
				}
				return r
			}, s)
		}
		if err := encodeAny(b, f.val, dev); err != nil {
			return err
		}
	}
	b.WriteByte('}')
	return nil
}

func encodeAny(b *bytes.Buffer, v any, _ Dev) error {
	var x bytes.Buffer
	e := json.NewEncoder(&x)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return err
	}
	b.Write(bytes.TrimSuffix(x.Bytes(), []byte("\n")))
	return nil
}

// What encoding/json learns of a type it learns before any run.
func init() {
	var b bytes.Buffer
	for _, v := range []any{"", int64(1), uint64(1), 1, 1.5, true, nil, json.Number("1.5"), map[string]any{"a": 1}, []any{1}, []string{"a"}, []int{1}} {
		_ = encodeAny(&b, v, nil)
	}
}
