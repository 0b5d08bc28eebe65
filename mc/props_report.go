package main

import (
	"encoding/json"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C25", Level: "exploration",
		Rule:  "a case is one complete run that prints the key reports of a distinct input and configuration; every report is parsed and compared with the reference",
		Note:  inputNote + "; concurrent scans are explored with at most one deviation from the default schedule, the reports are then compared as sets",
		Cases: casesReports, Check: checkReports,
	})
}

// --- C25 ---

func casesReports(g *Gen) {
	add := func(f func(c *Case), ls ...string) {
		g.add(func() *Case {
			c := in(lines(ls...))
			c.Opts.ShowFlat, c.Opts.ShowHier, c.Opts.ShowInfo, c.Opts.ShowSchema = true, true, true, true

			if f != nil {
				f(c)
			}

			return c
		})
	}

	// Shapes.
	vals := values([]string{`"x"`, `1`, `null`}, []string{"a", "b"}, 2, 2)
	for _, v := range vals {
		add(nil, obj("a", v))
	}

	flatVals := append(values([]string{`"x"`, `1`, `1.5`, `true`, `null`, `1e999`}, []string{"b"}, 1, 2), `{"b":{"c":1}}`, `[{"b":1},2]`, `[[1],["x"]]`, `{"[0]":1}`)
	few := flatVals

	if !g.thorough {
		few = nil
		for i, v := range flatVals {
			if i < 8 || i%4 == 0 || i > len(flatVals)-5 {
				few = append(few, v)
			}
		}
	}

	for _, v := range flatVals {
		for _, w := range flatVals {
			add(nil, obj("a", v), obj("a", w))
		}
	}

	for _, v := range few {
		for _, w := range few {
			for _, x := range few {
				add(nil, obj("a", v), obj("a", w), obj("a", x))
			}

			add(nil, obj("a", "["+v+","+w+"]"))
			add(nil, obj("a", "["+v+","+w+"]"), obj("a", v))
			add(nil, obj("a", v, "b", w), obj("A", w, "b", v))
		}
	}

	// One report at a time, several in any combination; no keys at all.
	for n := 1; n < 16; n++ {
		for _, ls := range [][]string{{`{}`}, {`{"a":{}}`, `{"b":[]}`}, {`{"a":1}`}, {`{"a":{"b":[1]}}`, `{"a":"x"}`}} {
			add(func(c *Case) {
				c.Opts.ShowFlat, c.Opts.ShowHier, c.Opts.ShowInfo, c.Opts.ShowSchema = n&1 > 0, n&2 > 0, n&4 > 0, n&8 > 0
			}, ls...)
			add(func(c *Case) {
				c.Opts.ShowFlat, c.Opts.ShowHier, c.Opts.ShowInfo, c.Opts.ShowSchema = n&1 > 0, n&2 > 0, n&4 > 0, n&8 > 0
				c.Opts.CSV = "/out/o.csv"
			}, ls...)
		}
	}

	// Spelling.
	segs := []string{"", "a", "A", "é", "€😀", `q"q`, `b\b`, " ", "a b", "<&>", "'", "a.b", "0", "[", "]", "[]", "[x", "[x]", "keys:", "keys info:", "\t", "\x01", "\u2028", "a,", "%d", "$ref", "properties", "type", "items"}

	for _, s := range segs {
		for _, t := range segs {
			add(nil, obj(s, obj(t, "1")))
			add(nil, obj(s, `"x"`), obj(s, obj(t, "true", "z", "[2]")))
			add(nil, obj(s, "1"), obj(t, "2"), obj(s, obj("k", obj(t, "null"))))
			add(nil, obj(s, "[1]"), obj(s, obj(t, "1")))
			add(nil, obj("a", obj(s, "1", t, "x")), obj("a", "[[2],3]"))
		}
	}

	// Options.
	opts := []func(c *Case){
		func(c *Case) { c.Opts.AddSequence = true },
		func(c *Case) { c.Opts.CaseSensitive = true },
		func(c *Case) { c.Opts.SkipZeroCols = true },
		func(c *Case) { c.Opts.ReplaceKeys = true },
		func(c *Case) { c.Opts.ExtractStrings = true },
		func(c *Case) { c.Opts.MatchLinePrefix = `(\w+)=(\w+)` },
		func(c *Case) { c.Opts.MaxLines = 1 },
		func(c *Case) { c.Opts.OffsetLines = 1 },
		func(c *Case) { c.Opts.MaxLinesKeys = 1 },
		func(c *Case) { c.Opts.ChildrenLimit = ptr(1) },
		func(c *Case) { c.Opts.ChildrenLimit = ptr(1); c.Cfg.AllowCardinality = []string{".a"} },
		func(c *Case) { c.Opts.ChildrenLimit = ptr(0) },
		func(c *Case) { c.Cfg.KeepJSON = []string{".a"} },
		func(c *Case) { c.Cfg.KeepJSON = []string{".a.b", ".c"} },
		func(c *Case) { c.Cfg.Transpose = map[string]string{".a": "ta"} },
		func(c *Case) { c.Cfg.Transpose = map[string]string{".a": "ta", ".c": "tc"} },
		func(c *Case) { c.Cfg.IncludeKeysRegex = []string{".a.*"} },
		func(c *Case) { c.Cfg.IncludeKeysRegex = []string{".*"}; c.Cfg.IncludeKeys = []string{".A"} },
		func(c *Case) { c.Cfg.IncludeKeysRegex = []string{"^"}; c.Cfg.ExcludeKeys = []string{".a", ".b"} },
		func(c *Case) { c.Cfg.ExcludeKeysRegex = []string{".*"} },
		func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "A", ".b": "B", ".a.b": "AB"} },
		func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "X", ".b": "X"} },
		func(c *Case) { c.Cfg.ReplaceKeysRegex = map[string]string{".a.*": "new_${1}"} },
		func(c *Case) { c.Cfg.ExtractValuesRegex = map[string]string{".u": "URL", ".j": "JSON"} },
	}

	docs := []string{
		`{"a":1}`, `{"a":{"b":2,"c":"x"}}`, `{"a":[true,{"b":0}]}`, `{"b":"","A":1.5}`, `k=v {"c":{"x":1,"y":2},"a":null}`,
		`{"u":"https://u:p@h:1/p/q?a=1&a=2#f","j":"{\"a\":[1,{\"b\":null}]}"}`, `{}`, `{"c":[[1],{}],"B":false}`, `{"a":"s","b":0}`,
	}

	depth := 2
	if g.thorough {
		depth = 3
	}

	upTo(docs, depth, func(s []string) {
		if len(s) == 0 {
			return
		}

		for i, f := range opts {
			add(f, s...)

			if !g.thorough && len(s) > 1 && i%4 != 0 {
				continue
			}

			for _, h := range opts {
				add(func(c *Case) {
					f(c)

					if c.Cfg.IncludeKeysRegex != nil || c.Cfg.KeepJSON != nil || c.Cfg.Transpose != nil || c.Opts.ChildrenLimit != nil {
						return
					}

					h(c)
				}, s...)
			}
		}
	})

	// Several inputs.
	upTo(docs[:6], 2, func(s []string) {
		if len(s) < 2 {
			return
		}

		add(func(c *Case) {
			c.Files = []File{{"/in/1.log", s[0] + "\n"}, {"/in/2.log", s[1] + "\n"}, {"/in/3.log", s[0]}}
		})
	})

	// Concurrent scans.
	par := []string{`{"a":1}`, `{"a":{"b":"x"}}`, `{"a":[true]}`, `{"a":"s","b":2}`, `{"a":{"b":{"c":null},"d":1}}`}

	upTo(par, 2, func(s []string) {
		if len(s) < 2 {
			return
		}

		add(func(c *Case) {
			c.Opts.Concurrency = 2
			c.Mode, c.Bound, c.Window = "db", 1, 1

			if g.thorough {
				c.Mode = "pb"
			}
		}, s...)
		add(func(c *Case) {
			c.Opts.Concurrency = 2
			c.Mode, c.Bound, c.Window = "db", 1, 1
			c.Stmts = true
		}, s...)
	})
}

type jtree map[string]map[string]bool // path (joined with newlines) -> kinds

func hierNodes(v *jv, prefix string, out jtree) string {
	if v.kind == 's' {
		p := prefix + "\n" + v.s
		if _, ok := out[p]; ok {
			return "the hierarchy lists a key twice"
		}

		out[p] = nil

		return ""
	}

	if v.kind != 'o' || len(v.keys) != 1 || v.vals[0].kind != 'a' {
		return "the hierarchy has an unexpected shape"
	}

	p := prefix + "\n" + v.keys[0]
	if _, ok := out[p]; ok {
		return "the hierarchy lists a key twice"
	}

	out[p] = nil

	for _, e := range v.vals[0].vals {
		if d := hierNodes(e, p, out); d != "" {
			return d
		}
	}

	return ""
}

// Items of arrays share a node.
const schemaItem = "\x00item"

func schemaNodes(v *jv, path string, out jtree) string {
	if v.kind != 'o' {
		return "a node of the schema is not an object"
	}

	kk := map[string]bool{}
	out[path] = kk

	for i, k := range v.keys {
		e := v.vals[i]

		switch k {
		case "title":
		case "type":
			if e.kind == 's' {
				kk[e.s] = true
				continue
			}

			if e.kind != 'a' {
				return "a type of the schema is not a list"
			}

			for _, t := range e.vals {
				if t.kind != 's' || kk[t.s] {
					return "a list of types of the schema has repetitions or other values than strings"
				}

				kk[t.s] = true
			}
		case "properties":
			if e.kind != 'o' {
				return "properties of the schema are not an object"
			}

			for j, n := range e.keys {
				p := path + "\n" + n
				if _, ok := out[p]; ok {
					return "the schema has a property twice"
				}

				if d := schemaNodes(e.vals[j], p, out); d != "" {
					return d
				}
			}
		case "items":
			if d := schemaNodes(e, path+"\n"+schemaItem, out); d != "" {
				return d
			}
		default:
			return "the schema has an unexpected field " + k
		}
	}

	return ""
}

var schemaKinds = map[string]string{"string": "string", "int": "integer", "float": "number", "bool": "boolean", "null": "null"}

func checkReports(x *Ctx, o *Obs) string {
	if !o.ok() {
		return "the run ended with " + o.status() + logTail(o)
	}

	e := x.exp()
	m := e.model
	opts := x.c.Opts
	out := o.Stdout
	ordered := opts.Concurrency <= 1

	if opts.CSV != "" {
		if d := cmpAll(x.c, o, e, cmpOpt{}); d != "" {
			return d
		}
	}

	// Flat list.
	if opts.ShowFlat {
		rest, ok := strings.CutPrefix(out, "keys:\n")
		if !ok {
			return "the flat list is missing"
		}

		var got []string

		for strings.HasPrefix(rest, `"`) {
			line, tail, _ := strings.Cut(rest, "\n")

			item, ok := strings.CutSuffix(line, ",")
			if !ok {
				return "a line of the flat list does not end with a comma: " + clip(line)
			}

			var k string
			if err := json.Unmarshal([]byte(item), &k); err != nil {
				return "a key of the flat list is not encoded: " + clip(line)
			}

			got = append(got, k)
			rest = tail
		}

		if d := sameList("flat list", e.flat, got, ordered); d != "" {
			return d
		}

		out = rest
	}

	// Information list.
	if opts.ShowInfo {
		rest, ok := strings.CutPrefix(out, "keys info:\n")
		if !ok {
			return "the information list is missing"
		}

		marked := len(x.c.Cfg.IncludeKeys)+len(x.c.Cfg.IncludeKeysRegex) > 0
		n := 0

		next := func(want ...string) string {
			n++

			for _, w := range want {
				if t, ok := strings.CutPrefix(rest, itoa(n)+": "+w+"\n"); ok {
					rest = t
					return ""
				}
			}

			return "entry " + itoa(n) + " of the information list: expected " + clip(want[0]) + ", found " + clip(rest)
		}

		listed := map[string]bool{}
		for _, k := range e.flat {
			listed[k] = true
		}

		exact := ordered

		for _, i := range e.info {
			// Names of keys that are not in the input are not specified.
			if !listed[i.col.key] {
				exact = false
			}
		}

		for _, i := range e.info {
			if !exact {
				break
			}

			types := []string{i.col.typ()}

			for _, mk := range m.byCan[m.ck(i.col.key)] {
				if m.hc[mk.key] || mk.literal {
					types = []string{"json", "string"}
				}
			}

			var want []string

			for _, t := range types {
				w := i.col.name + ", TYPE " + t
				if i.col.name != i.col.key {
					w = i.col.key + ", REPLACED WITH " + w
				}

				if marked {
					w += ", INCLUDED"
				}

				if i.dst != "" {
					w += ", TRANSPOSED TO " + i.dst
				}

				for _, r := range m.ext {
					if r.re.MatchString(i.col.key) {
						w += ", EXTRACTED " + r.format
						break
					}
				}

				want = append(want, w)
			}

			if d := next(want...); d != "" {
				return d
			}
		}

		if marked && exact {
			for _, k := range e.left {
				if d := next(k + ", SKIPPED"); d != "" {
					return d
				}
			}
		}

		if !exact {
			for strings.HasPrefix(rest, itoa(n+1)+": ") {
				_, rest, _ = strings.Cut(rest, "\n")
				n++
			}

			want := len(e.info)
			if marked {
				want += len(e.left)
			}

			if n != want {
				return "the information list has " + itoa(n) + " entries instead of " + itoa(want)
			}
		}

		if strings.HasPrefix(rest, itoa(n+1)+": ") {
			return "the information list has more entries than columns: " + clip(rest)
		}

		out = rest
	}

	if !opts.ShowHier && !opts.ShowSchema {
		if out != "" {
			return "unexpected text after the reports: " + clip(out)
		}

		return ""
	}

	// The documents that follow.
	dec := json.NewDecoder(strings.NewReader(out))

	doc := func(what string) (*jv, string) {
		var r json.RawMessage
		if err := dec.Decode(&r); err != nil {
			return nil, what + " is not valid JSON: " + err.Error() + ": " + clip(out)
		}

		v, ok := parseJSONExact(string(r))
		if !ok {
			return nil, what + " is not valid JSON: " + clip(string(r))
		}

		return v, ""
	}

	var cols []*fkey

	for _, k := range sortedKeys(m.keys) {
		if fk := m.keys[k]; m.isColumn(fk) {
			cols = append(cols, fk)
		}
	}

	if opts.ShowHier {
		v, d := doc("the hierarchy")
		if d != "" {
			return d
		}

		if v.kind != 'a' {
			return "the hierarchy is not a list"
		}

		got, want := jtree{}, jtree{}

		for _, n := range v.vals {
			if d := hierNodes(n, "", got); d != "" {
				return d
			}
		}

		for _, k := range cols {
			p := ""
			for _, s := range k.path {
				p += "\n" + s
				want[p] = nil
			}
		}

		if d := sameList("hierarchy", sortedKeys(want), sortedKeys(got), false); d != "" {
			return d
		}
	}

	if opts.ShowSchema {
		v, d := doc("the schema")
		if d != "" {
			return d
		}

		got, want := jtree{}, jtree{"": {}}

		if d := schemaNodes(v, "", got); d != "" {
			return d
		}

		free := map[string]bool{}

		for _, k := range cols {
			p := ""
			path := k.path

			if path[0] == "_prefix" && k.parent == "" && len(path) > 1 {
				path = []string{strings.Join(path, ".")}
			}

			for i, s := range path {
				if par := m.keys[flatKey(path[:i])]; i > 0 && par != nil && par.array && strings.HasPrefix(s, "[") && strings.HasSuffix(s, "]") && len(s) > 2 {
					s = schemaItem
				}

				p += "\n" + s
				if want[p] == nil {
					want[p] = map[string]bool{}
				}
			}

			for t := range k.kinds {
				want[p][schemaKinds[t]] = true
			}

			if k.literal || m.hc[k.key] {
				free[p] = true
			}
		}

		if d := sameList("schema", sortedKeys(want), sortedKeys(got), false); d != "" {
			return d
		}

		for p, kk := range want {
			if free[p] {
				continue
			}

			var a, b []string

			for _, t := range sortedKeys(kk) {
				a = append(a, t)
			}

			for _, t := range sortedKeys(got[p]) {
				if t != "object" && t != "array" {
					b = append(b, t)
				}
			}

			if strings.Join(a, " ") != strings.Join(b, " ") {
				return "the schema gives " + clip(p) + " the types [" + strings.Join(b, " ") + "] instead of [" + strings.Join(a, " ") + "]"
			}
		}
	}

	if dec.More() {
		return "unexpected text after the reports"
	}

	return ""
}

func sameList(what string, want, got []string, ordered bool) string {
	if !ordered {
		w, g := map[string]int{}, map[string]int{}
		for _, k := range want {
			w[k]++
		}

		for _, k := range got {
			g[k]++
		}

		want, got = nil, nil

		for _, k := range sortedKeys(w) {
			want = append(want, strings.Repeat(k+"|", w[k]))
		}

		for _, k := range sortedKeys(g) {
			got = append(got, strings.Repeat(k+"|", g[k]))
		}
	}

	a, _ := json.Marshal(want)
	b, _ := json.Marshal(got)

	if len(want) != len(got) || len(want) > 0 && string(a) != string(b) {
		return "the " + what + " names " + clip(string(b)) + " instead of " + clip(string(a))
	}

	return ""
}
