package zcore

import (
	"encoding/json"
	"time"

	"github.com/madkins23/go-slog/internal/zsim"
)

// attempt executes a plan and returns the schedule trace of a run that fails with the class.
func attempt(p *Prop, raw []byte, scheds []zsim.Config, class string, known []Known) (zsim.Config, *Violation) {
	for _, c := range scheds {
		plan := p.New()
		if err := json.Unmarshal(raw, plan); err != nil {
			return c, nil
		}
		x := execute(p, plan, c)
		fresh, _ := split(x.Viols, known)
		for i := range fresh {
			if fresh[i].Class == class {
				r := c
				if len(x.Results) == 1 {
					// From here on the schedule is explicit.
					r.Mode, r.Trace = zsim.ModeReplay, x.Results[0].Trace
				}
				return r, &fresh[i]
			}
		}
	}
	return zsim.Config{}, nil
}

// minimise shrinks the plan, then the schedule, while the same class of violation persists.
func minimise(p *Prop, raw []byte, c zsim.Config, class string, known []Known, budget time.Duration) ([]byte, zsim.Config, *Violation) {
	end := now().Add(budget)
	explicit, v := attempt(p, raw, []zsim.Config{c}, class, known)
	if v == nil {
		return nil, c, nil // does not even repeat
	}
	if _, w := attempt(p, raw, []zsim.Config{explicit}, class, known); w != nil {
		c, v = explicit, w
	}
	tries := func(c zsim.Config, n int) []zsim.Config {
		out := []zsim.Config{c}
		if p.NoSched {
			return out
		}
		r := NewRand(c.Seed ^ 0x77)
		for i := 0; i < n; i++ {
			d := schedOf(p, r.Uint64())
			d.EnvSeed = c.EnvSeed
			if i%4 == 3 {
				d.EnvSeed = r.Uint64()
			}
			out = append(out, d)
		}
		return out
	}
	var tree any
	_ = json.Unmarshal(raw, &tree)
	for changed := true; changed && now().Before(end); {
		changed = false
		for _, cand := range candidates(tree) {
			if !now().Before(end) {
				break
			}
			b, err := json.Marshal(cand)
			if err != nil || string(b) == string(raw) {
				continue
			}
			if d, w := attempt(p, b, tries(c, 24), class, known); w != nil {
				raw, c, v = b, d, w
				_ = json.Unmarshal(raw, &tree)
				changed = true
				break
			}
		}
	}
	// The schedule: drop switches.
	if c.Mode == zsim.ModeReplay {
		for size := (len(c.Trace) + 1) / 2; size >= 1 && now().Before(end); {
			shrunk := false
			for at := 0; at < len(c.Trace) && now().Before(end); at += size {
				d := c
				d.Trace = append([]zsim.Switch(nil), c.Trace[:at]...)
				if at+size < len(c.Trace) {
					d.Trace = append(d.Trace, c.Trace[at+size:]...)
				}
				if _, w := attempt(p, raw, []zsim.Config{d}, class, known); w != nil {
					c, v, shrunk = d, w, true
					break
				}
			}
			if !shrunk {
				size /= 2
			}
		}
	}
	return raw, c, v
}

// candidates returns smaller variants of a decoded JSON value: array elements dropped (halves
// first), numbers set to zero, long strings cut.
func candidates(tree any) []any {
	var out []any
	var walk func(v any, rebuild func(any) any)
	walk = func(v any, rebuild func(any) any) {
		switch t := v.(type) {
		case []any:
			for size := len(t) / 2; size >= 1; size /= 2 {
				for at := 0; at+size <= len(t); at += size {
					w := append(append([]any{}, t[:at]...), t[at+size:]...)
					out = append(out, rebuild(w))
				}
				if size == 1 {
					break
				}
			}
			if len(t) == 1 {
				out = append(out, rebuild([]any{}))
			}
			for i := range t {
				i := i
				walk(t[i], func(n any) any {
					w := append([]any{}, t...)
					w[i] = n
					return rebuild(w)
				})
			}
		case map[string]any:
			for _, k := range sortedKeys(t) {
				k := k
				walk(t[k], func(n any) any {
					w := make(map[string]any, len(t))
					for a, b := range t {
						w[a] = b
					}
					w[k] = n
					return rebuild(w)
				})
			}
		case float64:
			if t > 1 || t < -1 {
				out = append(out, rebuild(float64(0)), rebuild(float64(1)))
			}
		case bool:
			if t {
				out = append(out, rebuild(false))
			}
		case string:
			if len(t) > 8 {
				out = append(out, rebuild(t[:4]))
			}
		}
	}
	walk(tree, func(n any) any { return n })
	return out
}

func sortedKeys(m map[string]any) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
