// Package zweb simulates the parts of go-slog around its handlers: the Gin writer, the trace handler,
// warnings, parsers, and the commands.
package zweb

import (
	"context"
	"fmt"
	"log/slog"

	"github.com/madkins23/go-slog/internal/zcore"
	"github.com/madkins23/go-slog/internal/zsim"
)

// entry is one record as the default logger got it.
type entry struct {
	task  int
	step  int
	level slog.Level
	msg   string
	attrs []flat
	rec   slog.Record
}

// flat is one attribute with the names of its groups.
type flat struct {
	key   string
	value slog.Value
}

func (f flat) String() string { return fmt.Sprintf("%q=%v", f.key, f.value) }

// collector is the handler of the default logger.
type collector struct {
	min     slog.Level
	got     []*entry
	yield   bool
	onEntry func(*entry)
}

func (c *collector) Enabled(_ context.Context, l slog.Level) bool { return l >= c.min }

func (c *collector) Handle(_ context.Context, r slog.Record) error {
	e := &entry{task: zsim.TaskID(), step: zsim.Step(), level: r.Level, msg: string([]byte(r.Message)), rec: r}
	r.Attrs(func(a slog.Attr) bool {
		e.attrs = flatten(e.attrs, "", a)
		return true
	})
	if c.yield {
		zsim.User(9)
	}
	c.got = append(c.got, e)
	return nil
}

func (c *collector) WithAttrs([]slog.Attr) slog.Handler { return c }
func (c *collector) WithGroup(string) slog.Handler      { return c }

func flatten(to []flat, prefix string, a slog.Attr) []flat {
	if a.Value.Kind() == slog.KindGroup {
		if a.Key != "" {
			prefix += a.Key + "\x00"
		}
		for _, b := range a.Value.Group() {
			to = flatten(to, prefix, b)
		}
		return to
	}
	return append(to, flat{prefix + string([]byte(a.Key)), slog.AnyValue(cloneAny(a.Value))})
}

func cloneAny(v slog.Value) any {
	if v.Kind() == slog.KindString {
		return string([]byte(v.String()))
	}
	return v.Any()
}

// withDefault makes h the default logger while f runs.
func withDefault(h slog.Handler, f func()) {
	old := slog.Default()
	slog.SetDefault(slog.New(h))
	defer slog.SetDefault(old)
	f()
}

var words = []string{"alpha", "bravo", "charlie", "delta echo", "x", "", "0", "a|b", "|", "a | b | c | d", "[WARNING]", "[x]", "{", "}", "\"q\"", "back\\slash",
	"tab\there", "new\nline", "ünïcode", "日本", "\x7f", "\x01", "<b>", "&amp;", "%d%s", "a=b", "::", "#", "+", "--", "'", "200 | 1ms | ::1 | GET \"/x\"",
	"2024/01/26 - 13:21:32 | rest", "[GIN]", "[GIN-debug]", "long " + string(make([]byte, 0))}

func word(r *zcore.Rand) string { return words[r.N(len(words))] }

// Props of the web binary.
var Props = []*zcore.Prop{ginWriterProp, ginTrafficProp, traceProp, registryProp, mgrProp, readProp, queryProp, tabProp, scoreProp, serverProp, startProp}
