// Package zhandlers holds the workloads and oracles for the log handlers.
package zhandlers

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// node is a JSON value whose objects keep order and duplicates.
type node struct {
	kind   byte // 's'tring, 'n'umber, 'b'ool, 'z' null, 'o'bject, 'a'rray, '?' anything, '~' a string that contains s
	s      string
	fields []field
	items  []*node
	alt    *node // another acceptable value
	group  bool  // made by a group: its emptiness means absence
}

type field struct {
	key string
	val *node
	opt bool // may be absent
}

// str is a string; what is not UTF-8 comes out as replacement characters.
func str(s string) *node {
	return &node{kind: 's', s: strings.Map(func(r rune) rune { return r }, s)}
}
func num(s string) *node { return &node{kind: 'n', s: s} }

// parseLine parses one complete JSON object and nothing else.
func parseLine(line []byte) (*node, error) {
	dec := json.NewDecoder(bytes.NewReader(line))
	dec.UseNumber()
	n, err := parseValue(dec)
	if err != nil {
		return nil, err
	}
	if n.kind != 'o' {
		return nil, fmt.Errorf("not an object")
	}
	rest := bytes.TrimSpace(line[dec.InputOffset():])
	if len(rest) > 0 {
		return nil, fmt.Errorf("trailing %q", rest)
	}
	return n, nil
}

func parseValue(dec *json.Decoder) (*node, error) {
	tok, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch t := tok.(type) {
	case json.Delim:
		switch t {
		case '{':
			n := &node{kind: 'o'}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				v, err := parseValue(dec)
				if err != nil {
					return nil, err
				}
				n.fields = append(n.fields, field{key: k.(string), val: v})
			}
			_, err := dec.Token()
			return n, err
		case '[':
			n := &node{kind: 'a'}
			for dec.More() {
				v, err := parseValue(dec)
				if err != nil {
					return nil, err
				}
				n.items = append(n.items, v)
			}
			_, err := dec.Token()
			return n, err
		}
	case string:
		return &node{kind: 's', s: t}, nil
	case json.Number:
		return &node{kind: 'n', s: string(t)}, nil
	case bool:
		return &node{kind: 'b', s: strconv.FormatBool(t)}, nil
	case nil:
		return &node{kind: 'z'}, nil
	}
	return nil, fmt.Errorf("token %v", tok)
}

func (n *node) String() string {
	switch n.kind {
	case 's':
		return strconv.Quote(n.s)
	case 'z':
		return "null"
	case '?':
		return "<any>"
	case 'o':
		var b strings.Builder
		b.WriteByte('{')
		for i, f := range n.fields {
			if i > 0 {
				b.WriteString(", ")
			}
			if f.opt {
				b.WriteByte('?')
			}
			b.WriteString(strconv.Quote(f.key) + ": " + f.val.String())
		}
		return b.String() + "}"
	case 'a':
		var b strings.Builder
		b.WriteByte('[')
		for i, f := range n.items {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(f.String())
		}
		return b.String() + "]"
	}
	return n.s
}

// same compares what was logged with what should have been.
func same(want, got *node) error {
	if want.kind == '?' {
		return nil
	}
	if want.kind == '~' { // the text of an error, somehow
		if got.kind != 's' || !strings.Contains(got.s, want.s) {
			return fmt.Errorf("want something with %q, got %s", want.s, got)
		}
		return nil
	}
	if want.alt != nil {
		if same(want.alt, got) == nil {
			return nil
		}
	}
	if want.kind != got.kind {
		return fmt.Errorf("want %s, got %s", want, got)
	}
	switch want.kind {
	case 's', 'b':
		if want.s != got.s {
			return fmt.Errorf("want %s, got %s", want, got)
		}
	case 'n':
		if want.s != got.s {
			a, err1 := strconv.ParseFloat(want.s, 64)
			b, err2 := strconv.ParseFloat(got.s, 64)
			isFloat := strings.ContainsAny(want.s, ".eE") || strings.ContainsAny(got.s, ".eE")
			if err1 != nil || err2 != nil || a != b || !isFloat {
				return fmt.Errorf("want %s, got %s", want, got)
			}
		}
	case 'a':
		if len(want.items) != len(got.items) {
			return fmt.Errorf("want %s, got %s", want, got)
		}
		for i := range want.items {
			if err := same(want.items[i], got.items[i]); err != nil {
				return fmt.Errorf("[%d]: %w", i, err)
			}
		}
	case 'o':
		if err := sameFields(want.fields, got.fields); err != nil && !anyMatch(want.fields, got.fields) {
			return err
		}
	}
	return nil
}

// sameFields takes what is optional for there if something with its name is.
func sameFields(want, got []field) error {
	i := 0
	for _, w := range want {
		if w.opt && (i >= len(got) || got[i].key != w.key) {
			continue
		}
		if i >= len(got) {
			return fmt.Errorf("missing %q", w.key)
		}
		if got[i].key != w.key {
			return fmt.Errorf("want key %q, got %q", w.key, got[i].key)
		}
		if err := same(w.val, got[i].val); err != nil {
			return fmt.Errorf("%q: %w", w.key, err)
		}
		i++
	}
	if i < len(got) {
		return fmt.Errorf("unexpected %q: %s", got[i].key, got[i].val)
	}
	return nil
}

// anyMatch tries all ways to leave out what is optional.
func anyMatch(want, got []field) bool {
	at := map[int]bool{0: true} // how much of got may be matched so far
	for _, w := range want {
		next := make(map[int]bool)
		for i := range at {
			if w.opt {
				next[i] = true
			}
			if i < len(got) && got[i].key == w.key && same(w.val, got[i].val) == nil {
				next[i+1] = true
			}
		}
		at = next
	}
	return at[len(got)]
}

// prune removes empty objects.
func prune(n *node) {
	if n.kind != 'o' {
		return
	}
	var out []field
	for _, f := range n.fields {
		prune(f.val)
		if f.val.kind == 'o' && len(f.val.fields) == 0 {
			continue
		}
		opt := 0
		for _, g := range f.val.fields {
			if g.opt {
				opt++
			}
		}
		if f.val.kind == 'o' && opt == len(f.val.fields) {
			f.opt = true
		}
		out = append(out, f)
	}
	n.fields = out
}

func find(n *node, key string) *node {
	for _, f := range n.fields {
		if f.key == key {
			return f.val
		}
	}
	return nil
}
