package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C09", Level: "exploration",
		Rule: "a case is one complete run for a single key on a distinct document sequence; every row is compared with the reference and, where the key is a column there, with the column of a full conversion",
		Note: inputNote, Cases: casesSingle, Check: checkSingle,
	})
	register(&Prop{
		ID: "C11", Level: "exploration",
		Rule: "a case is one complete run on a distinct input with transposed keys; main and transposed tables of all outputs are compared with the reference (rows of one line as a set)",
		Note: inputNote, Cases: casesTranspose, Check: std(cmpOpt{fold: true}),
	})
	register(&Prop{
		ID: "C12", Level: "exploration",
		Rule: "a case is one complete run on a distinct input and children limit; header and cells are compared with the reference",
		Note: inputNote, Cases: casesCardinality, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C13", Level: "exploration",
		Rule: "a case is one complete run on a distinct input and set of kept keys; header and cells (JSON compared as values with exact numbers) are compared with the reference",
		Note: inputNote, Cases: casesKeep, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule: "a case is one complete run on a distinct input and set of include and exclude rules; header and cells are compared with the reference",
		Note: inputNote, Cases: casesSelect, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C15", Level: "exploration",
		Rule: "a case is one complete run on a distinct set of keys and renaming options; the names are compared with the reference and each cell with its own value",
		Note: inputNote, Cases: casesRename, Check: checkRename,
	})
	register(&Prop{
		ID: "C16", Level: "exploration",
		Rule: "a case is one complete run on a distinct input with several keys mapped to one column; every cell is compared with the reference",
		Note: inputNote, Cases: casesMerge, Check: std(cmpOpt{fold: true}),
	})
	register(&Prop{
		ID: "C28", Level: "exploration",
		Rule: "a case is one complete run on a distinct input and field limit; every cell is compared with the reference",
		Note: inputNote + "; the limit counts bytes", Cases: casesFieldLimit, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C29", Level: "exploration",
		Rule: "a case is one complete run that skips empty columns on a distinct sequence of values; header and cells are compared with the reference",
		Note: inputNote, Cases: casesSkipZero, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C30", Level: "exploration",
		Rule: "a case is one complete run on a distinct combination of value, layout, output format and zone; every cell is compared with the reference conversion",
		Note: inputNote + "; time zone data is that of the Go distribution", Cases: casesTime, Check: std(cmpOpt{noTypes: true}),
	})
}

// --- C09 ---

func casesSingle(g *Gen) {
	add := func(key string, conc int, ls ...string) {
		g.add(func() *Case {
			c := csvCase(lines(ls...))
			c.Opts.Raw = "/out/o.raw"
			c.Opts.GetKey = key
			c.Opts.Concurrency = conc

			return c
		})
	}

	keys := []string{".a", ".b", ".a.b", ".a.a", ".a.[0]", ".a.[1]", ".a.[0].a", ".a.b.a", ".a.b.[0]", ".b.a", ".a.[1].b", ".c", ".a.c", ".a.[2]"}
	vals := values([]string{`"x"`, `1`, `null`}, []string{"a", "b"}, 1, 2)

	var docs []string

	objects([]string{"a", "b"}, vals, 2, func(o string) { docs = append(docs, o) })

	for _, d := range docs {
		for _, k := range keys {
			add(k, 1, d)
		}
	}

	deep := values([]string{`"x"`, `2`}, []string{"a", "b"}, 2, 2)
	for i, v := range deep {
		if !g.thorough && i%7 != 0 {
			continue
		}

		for _, k := range keys {
			add(k, 1, obj("a", v))
		}
	}

	few := []string{`{}`, `{"a":1}`, `{"a":{"b":"y"}}`, `{"b":2}`, `{"a":[3,{"a":4}]}`, `{"a":null}`, `{"A":5}`, `{"a":"s","b":{"a":6}}`, `{"a.b":7}`, `{"a":{"b":[8]}}`}

	upTo(few, 3, func(s []string) {
		for _, k := range keys[:9] {
			add(k, 1, s...)
		}
	})

	// Names more than once in an object, and names with dots next to paths.
	dup := []string{`"a":1`, `"a":null`, `"a":"x"`, `"a":{"b":2}`, `"a":{"b":null}`, `"a":{"b":{}}`, `"a.b":3`, `"a.b":null`, `"a":[4]`, `"a":{"[0]":5}`, `"a.[0]":6`, `"a":{"b.c":7,"b":{"c":8}}`, `"a.b":{"c":9}`, `"[0]":10`, `"0":11`, `"a":{"0":12}`, `"":13`, `"":{"a":14}`}
	for n := 2; n <= 3; n++ {
		if n == 3 && !g.thorough {
			break
		}

		seqs(dup, n, func(s []string) {
			for _, k := range []string{".a", ".a.b", ".a.b.c", ".a.[0]", ".[0]", ".0", ".a.0", ".", "..a"} {
				add(k, 1, "{"+strings.Join(s, ",")+"}")
			}
		})
	}

	// Keys below, at and above a kept one.
	upTo([]string{`{"a":1}`, `{"a":{"b":2}}`, `{"a":{"b":{"c":3}}}`, `{"a":[4]}`, `{"a":"x","b":5}`, `{"a.b":6}`, `{}`}, 2, func(s []string) {
		for _, kept := range []string{".a", ".a.b", ".b", ".a.[0]"} {
			for _, k := range []string{".a", ".a.b", ".a.b.c", ".a.[0]", ".b"} {
				g.add(func() *Case {
					c := csvCase(lines(s...))
					c.Opts.Raw = "/out/o.raw"
					c.Opts.GetKey = k
					c.Opts.Concurrency = 1
					c.Cfg.KeepJSON = []string{kept}

					return c
				})
			}
		}
	})

	// Spelling of keys.
	segs := []string{"", "a", "A", "[0]", "0", "a.b", " ", "[", "]", "[]", "é", `q"q`, "a]", "[a", "[a]", "1", "[01]", "-1", "[-1]"}

	for _, s := range segs {
		for _, t := range segs {
			d1 := obj(s, `"v"`, "z", "1")
			d2 := obj(s, obj(t, `"w"`), "z", "1")
			d3 := obj(s, `["e0","e1"]`)

			add("."+s, 1, d1, d2, d3)
			add("."+s+"."+t, 1, d1, d2, d3)
			add("."+s+".[0]", 1, d1, d2, d3)
			add("."+s+"."+t, 1, d2)
		}
	}

	// One column because the input has only one, with case variants and with expressions.
	upTo([]string{`{"a":1}`, `{"a":"x"}`, `{"A":2}`, `{}`, `{"a":{"b":3}}`, `{"a":{"B":4}}`, `{"a":[5]}`, `{"b":6}`}, 3, func(s []string) {
		for _, cs := range []bool{false, true} {
			g.add(func() *Case {
				c := csvCase(lines(s...))
				c.Opts.Raw = "/out/o.raw"
				c.Opts.CaseSensitive = cs

				return c
			})

			for _, k := range []string{"^.a$", "^.a.b$", ".a.*"} {
				g.add(func() *Case {
					c := csvCase(lines(s...))
					c.Opts.Raw = "/out/o.raw"
					c.Opts.CaseSensitive = cs
					c.Cfg.IncludeKeysRegex = []string{k}

					return c
				})
			}
		}
	})

	// With other options.
	upTo([]string{`{"a":"{\"b\":1}"}`, `{"a":{"b":"2020-01-02"}}`, `{"a":"http://h/p?q=1"}`, `{"b":1}`, `pre {"a":{"b":"x"}}`, `{"a":{"b":{"c":1}}}`}, 2, func(s []string) {
		for _, k := range []string{".a", ".a.b", ".a.JSON.b", ".a.URL.host", ".a.URL.query.q.[0]", "._sequence", "._prefix.[0]"} {
			for n := 0; n < 6; n++ {
				if n == 4 && k != ".a" {
					continue // a key inside of a kept one
				}

				g.add(func() *Case {
					c := csvCase(lines(s...))
					c.Opts.GetKey = k

					switch n {
					case 1:
						c.Opts.ExtractStrings = true
					case 2:
						c.Opts.AddSequence = true
					case 3:
						c.Opts.MatchLinePrefix = `(\w+)`
					case 4:
						c.Cfg.KeepJSON = []string{".a"}
					case 5:
						c.Cfg.ExtractValuesRegex = map[string]string{".a": "JSON"}
					}

					return c
				})
			}
		}
	})

	// Concurrent workers, parser reuse.
	for _, n := range []int{99, 101, 205} {
		for _, k := range []string{".a", ".a.b", ".a.[1]"} {
			var ls []string
			for i := 0; i < n; i++ {
				ls = append(ls, []string{obj("a", num(i)), obj("a", obj("b", num(i))), obj("a", "[0,"+num(i)+"]"), obj("b", num(i))}[i%4])
			}

			add(k, 1, ls...)
			add(k, 4, ls...)
		}
	}
}

func checkSingle(x *Ctx, o *Obs) string {
	if msg := stdCheck(x, o, cmpOpt{}); msg != "" {
		return msg
	}

	c := x.c
	if c.Opts.GetKey == "" || c.Opts.ExtractStrings || c.Cfg.ExtractValuesRegex != nil {
		return ""
	}

	// The same column of a full conversion, told apart by case.
	a := c.clone()
	a.Opts.GetKey = ""
	a.Opts.Raw = ""
	a.Opts.ChildrenLimit = ptr(0)
	a.Opts.CaseSensitive = true
	a.Opts.Concurrency = 1

	ao := a.exec(a.basePlan())
	if !ao.ok() {
		return "the full conversion ended with " + ao.status()
	}

	full, msg := csvTab(ao, "/out/o.csv")
	if msg != "" {
		return "full conversion: " + msg
	}

	one, msg := csvTab(o, "/out/o.csv")
	if msg != "" {
		return msg
	}

	for j, n := range full.cols {
		if n != c.Opts.GetKey || n == "" {
			continue
		}

		if len(full.rows) != len(one.rows) {
			return fmt.Sprintf("%d rows, %d in the full conversion", len(one.rows), len(full.rows))
		}

		for i, r := range full.rows {
			if one.rows[i][0].V != r[j].V {
				return fmt.Sprintf("row %d: %q, %q in the full conversion", i+1, one.rows[i][0].V, r[j].V)
			}
		}

		return ""
	}

	return ""
}

// --- C11 ---

func casesTranspose(g *Gen) {
	mk := func(tr map[string]string, ls ...string) *Case {
		c := in(lines(ls...))
		c.Opts.CSV = "/out/o.csv"
		c.Cfg.Transpose = tr

		return c
	}

	t := map[string]string{".t": "tt"}
	elems := []string{`1`, `"x"`, `null`, `{}`, `{"p":1}`, `{"q":"y"}`, `{"p":true,"q":{"r":2}}`, `[]`, `[7]`, `[8,{"p":9}]`}

	var vals []string

	vals = append(vals, `"s"`, `null`, `[]`, `{}`)

	upTo(elems, 2, func(s []string) { vals = append(vals, "["+strings.Join(s, ",")+"]") })
	objects([]string{"k", "l"}, elems, 2, func(o string) { vals = append(vals, o) })

	for _, v := range vals {
		g.add(func() *Case { return mk(t, obj("t", v)) })
		g.add(func() *Case { return mk(t, obj("a", "1", "t", v, "b", `"z"`)).allOut() })

		for _, w := range []string{`[1]`, `{"k":"v"}`, `{"k":{"p":5}}`, `[{"q":6},2]`, `"s"`} {
			g.add(func() *Case { return mk(t, obj("t", v, "b", "1"), obj("t", w)) })
			g.add(func() *Case { return mk(t, obj("t", w), obj("t", v)) })
		}
	}

	// Names of elements, and below elements, in different case.
	var named []string

	objects([]string{"k", "K"}, []string{`1`, `{"p":2}`, `{"P":"x"}`, `{"q":true,"P":3}`, `[4,{"Q":5}]`}, 2, func(o string) { named = append(named, o) })
	upTo([]string{`{"p":6}`, `{"P":7,"q":8}`, `{"Q":{"R":9}}`, `{"q":{"r":10}}`, `"y"`}, 2, func(s []string) { named = append(named, "["+strings.Join(s, ",")+"]") })

	for _, v := range named {
		for _, w := range named {
			g.add(func() *Case { return mk(t, obj("t", v, "b", "1"), obj("t", w, "B", `"z"`)).allOut() })
			g.add(func() *Case {
				c := mk(t, obj("t", v), obj("t", w))
				c.Opts.CaseSensitive = true

				return c
			})
		}
	}

	seqs(elems[:7], 3, func(s []string) {
		g.add(func() *Case { return mk(t, obj("t", "["+strings.Join(s, ",")+"]")) })
		g.add(func() *Case { return mk(t, obj("t", obj("k", s[0], "l", s[1])), obj("t", obj("l", s[2]))) })
	})

	// Several prefixes and similar keys.
	sub := []string{`{"t":[1,2]}`, `{"u":{"x":"y"}}`, `{"tt":[3],"t":[{"p":4}]}`, `{"t2":5,"t":{"p":{"q":6}},"u":[7]}`, `{"v":{"t":[8]},"T":[9]}`, `{}`, `{"t":1,"u":2}`}

	upTo(sub, 3, func(s []string) {
		g.add(func() *Case { return mk(map[string]string{".t": "tt", ".u": "uu"}, s...) })
		g.add(func() *Case { return mk(map[string]string{".v.t": "vt", ".t": "tt"}, s...).allOut() })
		g.add(func() *Case { return mk(map[string]string{".t": "tt", ".u": "tt"}, s...).allOut() })
		g.add(func() *Case { return mk(map[string]string{".t": "tt", ".t.p": "pp", ".v": "tt"}, s...) })
	})

	// Prefixes that share a table, and nested ones.
	for _, v := range vals {
		for _, w := range []string{`[1]`, `{"k":{"p":5}}`, `[{"q":6},{"p":2}]`, `"s"`, `{"k":[{"p":7},8],"l":9}`} {
			for _, tr := range []map[string]string{
				{".t": "x", ".u": "x"}, {".t": "x", ".t.k": "y"}, {".t": "x", ".t.[0]": "y"}, {".t": "x", ".t.k": "x", ".u": "y"}, {".t.k": "x", ".t.l": "x", ".u.k": "x", ".u": "y"},
			} {
				g.add(func() *Case { return mk(tr, obj("t", v, "u", w, "b", "1")) })
				g.add(func() *Case { return mk(tr, obj("t", w, "b", "1", "u", v), obj("u", w)) })
			}
		}
	}

	// Deep prefixes, names of elements.
	for _, p := range []string{".a.t", ".a.[0].t", ".a.[1]", ".a"} {
		upTo([]string{`{"a":{"t":[1,{"x":2}]}}`, `{"a":[{"t":{"k":3}},{"t":[4]}]}`, `{"a":{"t":5},"b":6}`, `{"a":[[7,8],[9]]}`}, 2, func(s []string) {
			g.add(func() *Case { return mk(map[string]string{p: "d"}, s...) })
		})
	}

	upTo([]string{`k`, `K`, ` `, `.`, `[0]`, `0`, `[a]`, `é`, `\"`, `,`, `[`, `]`, `-`}, 2, func(s []string) {
		n := strings.Join(s, "")

		g.add(func() *Case { return mk(t, `{"t":{"`+n+`":1,"z":{"p":2}}}`) })
		g.add(func() *Case { return mk(t, `{"t":{"z":{"`+n+`":1},"y":2}}`).allOut() })
	})

	// Options that meet transposition.
	ls := []string{`{"id":1,"t":[{"p":"x","q":1},{"p":"y"}]}`, `{"id":2,"t":{"k":{"q":2}}}`, `{"id":3}`, `{"id":4,"t":[{"p":"{\"j\":[1]}"}]}`}

	for n := 0; n < 12; n++ {
		perms(ls, func(ls []string) {
			g.add(func() *Case {
				c := mk(t, ls...).allOut()

				switch n {
				case 1:
					c.Opts.AddSequence = true
				case 2:
					c.Opts.ReplaceKeys = true
				case 3:
					c.Cfg.ExcludeKeysRegex = []string{`\.q$`}
				case 4:
					c.Cfg.KeepJSON = []string{".t.[0]"}
				case 5:
					c.Opts.ExtractStrings = true
				case 6:
					c.Opts.OffsetLines = 1
				case 7:
					c.Opts.SQLMaxCols = 2
				case 8:
					c.Cfg.IncludeKeysRegex = []string{".t.*.p", ".id"}
				case 9:
					c.Opts.CaseSensitive = true
				case 10:
					c.Opts.Raw, c.Opts.PG, c.Opts.SQLite = "", "", ""
					c.Opts.CSV = "/out/o.csv.gz"
				case 11:
					c.Opts.ChildrenLimit = ptr(2)
				}

				return c
			})
		})
	}

	// Many elements.
	for _, n := range []int{9, 10, 11, 60, 99, 100} {
		g.add(func() *Case {
			var e, f []string

			for i := 0; i < n; i++ {
				e = append(e, obj("p", num(i)))
				f = append(f, "k"+num(i), num(i))
			}

			return mk(t, obj("t", "["+strings.Join(e, ",")+"]"), obj("t", obj(f...)), obj("t", "["+strings.Join(e[n/2:], ",")+"]")).allOut()
		})
	}
}

// --- C12 ---

func casesCardinality(g *Gen) {
	mk := func(limit int, allow []string, ls ...string) {
		g.add(func() *Case {
			c := csvCase(lines(ls...))
			c.Opts.ChildrenLimit = ptr(limit)
			c.Cfg.AllowCardinality = allow

			return c
		})
	}

	docs := []string{
		`{}`, `{"a":{"x":1}}`, `{"a":{"y":"v"}}`, `{"a":{"x":{"p":1,"q":2}}}`, `{"a":{"z":null,"x":3}}`, `{"a":[1,2]}`, `{"a":"s","b":1}`, `{"a":{"x":4,"y":[5]},"b":{"x":6}}`,
		`{"a":{"y":{"p":{"r":7}}}}`, `{"a":null}`, `{"ab":{"x":1,"y":2}}`, `{"a":{}}`,
	}

	upTo(docs, 3, func(s []string) {
		for limit := 0; limit <= 3; limit++ {
			mk(limit, nil, s...)
		}
	})

	upTo(docs, 2, func(s []string) {
		for limit := 1; limit <= 2; limit++ {
			for _, al := range [][]string{{".a"}, {".a.x"}, {".b"}, {".ab", ".a.y"}} {
				mk(limit, al, s...)
			}
		}
	})

	// The JSON of the parent.
	for _, v := range values([]string{`"q\"\\\n"`, `1.0`, `null`, `12345678901234567890`}, []string{"p"}, 1, 2) {
		for _, w := range []string{`{"x":1,"y":2}`, `[1,2,3]`} {
			mk(1, nil, obj("a", obj("x", v, "y", v)), obj("a", w, "b", "1"))
			mk(1, nil, obj("a", w, "b", "1"), obj("c", obj("a", "["+v+",1]")))
		}
	}

	// Around the default limit, and the root.
	for _, n := range []int{99, 100, 101} {
		for _, spread := range []bool{false, true} {
			var kv, arr []string
			for i := 0; i < n; i++ {
				kv = append(kv, "k"+num(i), num(i))
				arr = append(arr, num(i))
			}

			ls := []string{obj("a", obj(kv...)), obj("b", "["+strings.Join(arr, ",")+"]")}
			if spread {
				ls = nil
				for i := 0; i < n; i++ {
					ls = append(ls, obj("a", obj(kv[2*i:2*i+2]...)))
				}
			}

			g.add(func() *Case { return csvCase(lines(ls...)) })
			g.add(func() *Case { return csvCase(lines(obj(kv...))) })
			g.add(func() *Case {
				c := csvCase(lines(ls...))
				c.Cfg.AllowCardinality = []string{".a"}

				return c
			})
		}
	}

	// Together with other options.
	for n := 0; n < 8; n++ {
		upTo(docs[1:9], 2, func(s []string) {
			g.add(func() *Case {
				c := csvCase(lines(s...))
				c.Opts.ChildrenLimit = ptr(1)

				switch n {
				case 0:
					c.Cfg.ExcludeKeys = []string{".a.y"}
				case 1:
					c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "w"}
				case 2:
					c.Opts.PG = "/out/o.sql"
				case 3:
					c.Opts.AddSequence = true
				case 4:
					c.Cfg.IncludeKeysRegex = []string{".a", ".a.*"}
				case 5:
					c.Opts.CaseSensitive = true
				case 6:
					c.Cfg.KeepJSON = []string{".a.x"}
				case 7:
					c.Opts.ExtractStrings = true
				}

				return c
			})
		})
	}
}

// --- C13 ---

func casesKeep(g *Gen) {
	mk := func(keep []string, ls ...string) {
		g.add(func() *Case {
			c := csvCase(lines(ls...))
			c.Cfg.KeepJSON = keep

			return c
		})
	}

	vals := values([]string{`"q\"\\\n"`, `1.0`, `null`, `true`}, []string{"p", "q"}, 1, 2)
	vals = append(vals, `{"p":{"q":[1,{"r":null}]},"é":"\u00e9\u0000<&>"}`, `[[],{},[{}]]`, `12345678901234567890`, `{"p":1e400,"q":-0}`, `{"p":1,"p":2}`, `{"":{"":0}}`)

	for _, v := range vals {
		mk([]string{".a"}, obj("a", v, "b", v))
		mk([]string{".a", ".b"}, obj("a", v), obj("b", v, "a", `{"z":1}`))
		mk([]string{".c.a"}, obj("c", obj("a", v, "d", v)))
		mk([]string{".c.[1]"}, obj("c", "[1,"+v+",3]"))
		mk([]string{".a"}, obj("a", `"s"`), obj("a", v), obj("a", "null"))
	}

	deep := values([]string{`"x"`, `1`}, []string{"a", "b"}, 2, 2)
	for i, v := range deep {
		if !g.thorough && i%5 != 0 {
			continue
		}

		mk([]string{".a.b"}, obj("a", v))
		mk([]string{".a"}, obj("a", v), obj("b", "1"))
		mk([]string{".a.[0]", ".a.a"}, obj("a", v))
	}

	docs := []string{`{}`, `{"a":{"x":1}}`, `{"a":[1,"y"]}`, `{"a":"s","b":{"x":2}}`, `{"a":null}`, `{"A":{"x":3}}`, `{"ab":{"x":4},"a":{"y":{"z":5}}}`, `{"b":1}`}

	upTo(docs, 3, func(s []string) {
		mk([]string{".a"}, s...)
		mk([]string{".a.y", ".b"}, s...)
	})

	for n := 0; n < 12; n++ {
		upTo(docs, 2, func(s []string) {
			g.add(func() *Case {
				c := csvCase(lines(s...))
				c.Cfg.KeepJSON = []string{".a"}

				switch n {
				case 0:
					c.Cfg.IncludeKeys = []string{".a"}
				case 1:
					c.Cfg.IncludeKeys = []string{".b", ".a", ".a.x"}
				case 2:
					c.Opts.GetKey = ".a"
				case 3:
					c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
				case 4:
					c.Opts.PG = "/out/o.sql"
					c.Opts.SQLite = "/out/o.sqlite"
				case 5:
					c.Opts.AddSequence = true
				case 6:
					c.Opts.ChildrenLimit = ptr(1)
				case 7:
					c.Opts.CaseSensitive = true
				case 8:
					c.Cfg.Transpose = map[string]string{".a": "aa"}
				case 9:
					c.Cfg.Transpose = map[string]string{".b": "bb"}
				case 10:
					c.Opts.ReplaceKeys = true
				case 11:
					c.Cfg.ExcludeKeys = []string{".b"}
				}

				return c
			})
		})
	}
}

// --- C14 ---

func casesSelect(g *Gen) {
	keys := []string{".a", ".b", ".c.d", ".c.e", ".A", ".zz", ".c"}
	inc := []string{".a", ".b", ".c.d", ".zz", ".A", "const:k", ".c"}
	regs := []string{".c.*", ".*", `^\.[ab]$`, `d$`, ".a", "(?i)A"}

	ins := [][]string{
		{`{"a":1,"b":"x","c":{"d":2,"e":[3,4]}}`},
		{`{"b":"y"}`, `{"c":{"d":null},"a":{"f":5}}`, `{"A":6,"a":7}`, `{"c":{"D":8,"e":9}}`},
		{`{"A":6}`, `{}`, `{"a":1,"zz":{"q":1}}`},
	}

	add := func(ls []string, f func(c *Case)) {
		for _, cs := range []bool{false, true} {
			t := &Case{}
			f(t)

			// Names that differ in case are one key then.
			if k := strings.Join(t.Cfg.IncludeKeys, " ") + " "; !cs && strings.Contains(k, ".a ") && strings.Contains(k, ".A ") {
				continue
			}

			g.add(func() *Case {
				c := csvCase(lines(ls...))
				c.Opts.CaseSensitive = cs
				f(c)

				return c
			})
		}
	}

	for _, ls := range ins {
		upTo(inc, 3, func(s []string) {
			if dup(s) {
				return
			}

			add(ls, func(c *Case) { c.Cfg.IncludeKeys = s })
		})

		upTo(inc[:5], 2, func(s []string) {
			if dup(s) {
				return
			}

			for _, r := range regs {
				add(ls, func(c *Case) {
					c.Cfg.IncludeKeys = s
					c.Cfg.IncludeKeysRegex = []string{r}
				})
			}

			for _, k := range keys {
				add(ls, func(c *Case) {
					c.Cfg.IncludeKeys = s
					c.Cfg.ExcludeKeys = []string{k}
				})
			}

			for _, r := range regs {
				add(ls, func(c *Case) {
					c.Cfg.IncludeKeys = s
					c.Cfg.ExcludeKeysRegex = []string{r}
				})
			}
		})

		subsets(keys, func(s []string) {
			add(ls, func(c *Case) { c.Cfg.ExcludeKeys = s })
		})

		subsets(regs, func(s []string) {
			add(ls, func(c *Case) { c.Cfg.ExcludeKeysRegex = s })

			if len(s) > 0 {
				add(ls, func(c *Case) { c.Cfg.IncludeKeysRegex = s })
				add(ls, func(c *Case) { c.Cfg.IncludeKeysRegex = s; c.Cfg.ExcludeKeys = []string{".a", ".c.e.[1]"} })
				add(ls, func(c *Case) { c.Cfg.IncludeKeysRegex = s; c.Cfg.ExcludeKeysRegex = []string{`\.\[`} })
				add(ls, func(c *Case) { c.Cfg.IncludeKeysRegex = s; c.Opts.AddSequence = true })
				add(ls, func(c *Case) {
					c.Cfg.IncludeKeysRegex = s
					c.Cfg.IncludeKeys = []string{".c.d"}
					c.Cfg.ExcludeKeys = []string{".c.d"}
				})
			}
		})
	}

	// Simplified expressions.
	ks := []string{"a", "ab", "b", "a.b", "[0]", "é", "a*", "x+y"}
	pats := []string{".a", ".a*", ".*", ".*.b", ".a.b", ".*b", ".a.*", ".*.*", ".a.[*]", ".a.[0]", ".a+", ".x+y", `.a$`, `^\.a`, `b$`, `.[0]`, `.é`, `a|b`}

	for _, k := range ks {
		for _, l := range ks {
			for _, p := range pats {
				d := []string{obj(k, "1", l+"x", obj(l, "2")), obj("a", obj(k, "3", "b", "[4]"))}

				g.add(func() *Case {
					c := csvCase(lines(d...))
					c.Cfg.IncludeKeysRegex = []string{p}

					return c
				})
				g.add(func() *Case {
					c := csvCase(lines(d...))
					c.Cfg.ExcludeKeysRegex = []string{p}

					return c
				})
			}
		}
	}
}

func dup(s []string) bool {
	seen := map[string]bool{}

	for _, v := range s {
		if seen[v] {
			return true
		}

		seen[v] = true
	}

	return false
}

// --- C15 ---

func casesRename(g *Gen) {
	segs := []string{"a", "aB", "Ab", "a_b", "b", "1", "x y", "_a", "é"}

	var paths [][]string

	upTo(segs, 2, func(s []string) { paths = append(paths, s) })

	doc := func(ps ...[]string) string {
		root := &jv{kind: 'o'}

		for i, p := range ps {
			cur := root

			for j, s := range p {
				var nx *jv

				for x, k := range cur.keys {
					if k == s {
						nx = cur.vals[x]
					}
				}

				if nx == nil {
					nx = &jv{kind: 'o'}
					if j == len(p)-1 {
						nx = &jv{kind: 's', s: "v" + num(i)}
					}

					cur.keys = append(cur.keys, s)
					cur.vals = append(cur.vals, nx)
				}

				if nx.kind != 'o' {
					break
				}

				cur = nx
			}
		}

		return marshal(root)
	}

	for i, p := range paths {
		for j, q := range paths {
			if i == j {
				continue
			}

			for _, cs := range []bool{false, true} {
				g.add(func() *Case {
					c := csvCase(lines(doc(p, q)))
					c.Opts.ReplaceKeys = true
					c.Opts.CaseSensitive = cs

					return c
				})
			}
		}
	}

	three := [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"c", "a", "b"}, {"c", "b"}, {"a", "a"}, {"c", "a"}, {"A_b"}, {"c", "aB"}}

	n := 3
	if g.thorough {
		n = 4
	}

	seqs(three, n, func(s [][]string) {
		var ls []string
		for _, p := range s {
			ls = append(ls, doc(p))
		}

		g.add(func() *Case {
			c := csvCase(lines(ls...))
			c.Opts.ReplaceKeys = true

			return c
		})
		g.add(func() *Case {
			c := csvCase(lines(ls...))
			c.Opts.ReplaceKeys = true
			c.Cfg.ReplaceKeys = map[string]string{".a": "b", ".c.b": "X"}

			return c
		})
	})

	// Elements of arrays, names from the configuration, expressions.
	ins := [][]string{
		{`{"a":[1,2],"b":[{"a":3}]}`},
		{`{"userName":"u","HTTPServer":{"URLPath":"p","user_name":"n"},"id":1,"sub":{"id":2,"ID":3}}`},
		{`{"a":{"b":{"c":1}},"b":{"c":2},"c":3}`, `{"x":{"c":4}}`},
		{`{"a b":1,"a_b":2,"a-b":3,"a.b":4}`},
	}

	reps := []map[string]string{
		nil, {".a.[0]": "first"}, {".id": "user_name"}, {".c": "b_c"}, {".b.c": "b_c", ".a.b.c": "c"}, {".a b": "a_b"}, {".USERNAME": "Q", ".x.c": ""}, {".sub.id": "x y", ".a.[1]": ".a.[0]"},
	}

	rr := []map[string]string{
		nil, {".a.*": "arr_${1}"}, {".sub.*": "s ${1}"}, {`^\.(.*)$`: "${1}|to_snake_case"}, {".*.c": "${1}_c"}, {`^\.HTTP(\w+)\.(.*)$`: "${2}/${1}"},
	}

	for _, ls := range ins {
		for _, r := range reps {
			for _, x := range rr {
				for _, auto := range []bool{false, true} {
					for _, cs := range []bool{false, true} {
						g.add(func() *Case {
							c := csvCase(lines(ls...))
							c.Opts.ReplaceKeys = auto
							c.Opts.CaseSensitive = cs
							c.Cfg.ReplaceKeys = r
							c.Cfg.ReplaceKeysRegex = x

							return c
						})
					}
				}
			}
		}
	}

	// Limited length of names.
	words := []string{"k", "kk", "kkk", "abcdef", "abcdeg", "abcxyz", "zbcdef"}

	for limit := 2; limit <= 8; limit++ {
		upTo(words, 3, func(s []string) {
			if dup(s) {
				return
			}

			for _, auto := range []bool{false, true} {
				g.add(func() *Case {
					var kv []string
					for i, w := range s {
						kv = append(kv, w, `"v`+num(i)+`"`)
					}

					c := csvCase(lines(obj(kv...), obj("u", obj(kv...))))
					c.Opts.KeyLimit = limit
					c.Opts.ReplaceKeys = auto

					return c.set("limit", "1")
				})
			}
		})
	}

	for _, n := range []int{9, 10, 11, 30, 100, 101} {
		for _, limit := range []int{4, 5, 8} {
			g.add(func() *Case {
				var kv []string
				for i := 0; i < n; i++ {
					kv = append(kv, "long"+string(rune('a'+i/26))+string(rune('a'+i%26)), `"v`+num(i)+`"`)
				}

				c := csvCase(lines(obj(kv...)))
				c.Opts.KeyLimit = limit

				return c.set("limit", "1")
			})
		}
	}
}

func checkRename(x *Ctx, o *Obs) string {
	c := x.c
	if c.Aux["limit"] == "" {
		return stdCheck(x, o, cmpOpt{})
	}

	if !o.ok() {
		return "the run ended with " + o.status() + logTail(o)
	}

	// Names are unique and not longer than the limit, everything else is as without it.
	a := c.clone()
	a.Opts.KeyLimit = 0
	e := expect(a)

	t, msg := csvTab(o, "/out/o.csv")
	if msg != "" {
		return msg
	}

	seen := map[string]bool{}

	if len(t.cols) != len(e.main.cols) {
		return fmt.Sprintf("columns %q, expected %q in at most %d bytes each", t.cols, colNames(e.main), c.Opts.KeyLimit)
	}

	for i, n := range t.cols {
		if len(n) > c.Opts.KeyLimit {
			return fmt.Sprintf("column name %q is longer than %d", n, c.Opts.KeyLimit)
		}

		if seen[n] {
			return fmt.Sprintf("two columns are named %q: %q", n, t.cols)
		}

		seen[n] = true

		if w := e.main.cols[i].name; len(w) <= c.Opts.KeyLimit && n != w {
			return fmt.Sprintf("column %q is named %q", w, n)
		}
	}

	t.cols = colNames(e.main)

	return cmpMain(e.main, t, cmpOpt{})
}

// --- C16 ---

func casesMerge(g *Gen) {
	vals := []string{`1`, `"x"`, `null`, `true`, `""`}
	maps := []map[string]string{
		{".a": "v", ".b": "v"}, {".b": "v", ".a": "v", ".c": "w"}, {".a": "v", ".b": "v", ".c": "v"}, {".a": ".b"}, {".a": "b"},
	}

	add := func(m map[string]string, delim *string, ls ...string) {
		g.add(func() *Case {
			c := csvCase(lines(ls...))
			c.Cfg.ReplaceKeys = m
			c.Cfg.ConcatDelimiter = delim

			return c
		})
	}

	var docs []string

	objects([]string{"a", "b"}, vals, 2, func(o string) { docs = append(docs, o) })

	for _, d := range docs {
		for _, e := range docs {
			for _, dl := range []*string{nil, ptr(","), ptr("")} {
				if dl != nil && *dl == "" && !g.thorough {
					continue
				}

				add(maps[0], dl, d, e)
			}
		}
	}

	var docs3 []string

	objects([]string{"a", "b", "c"}, []string{`1`, `"x"`, `null`}, 3, func(o string) { docs3 = append(docs3, o) })

	for _, d := range docs3 {
		for _, m := range maps[1:] {
			add(m, nil, d, `{"c":"z","a":2}`)
			add(m, nil, `{"b":5}`, d)
			add(m, ptr(" + "), d, `{"c":"z","a":2}`)
			add(m, ptr("::"), `{"b":5}`, d, `{}`)
		}
	}

	// Nested keys, array elements, expressions, objects under merged keys.
	nested := []string{`{"a":{"x":1},"b":2}`, `{"b":{"x":"y"}}`, `{"a":[3,4]}`, `{"b":5,"a":{"x":null,"z":6}}`, `{"a":"s"}`, `{}`}

	upTo(nested, 3, func(s []string) {
		add(map[string]string{".a.x": "v", ".b": "v", ".b.x": "v", ".a.[1]": "v"}, nil, s...)
		add(map[string]string{".a.x": "v", ".b": "v", ".b.x": "v", ".a.[1]": "v", ".a": "w", ".a.z": "w"}, ptr("|"), s...)
		g.add(func() *Case {
			c := csvCase(lines(s...))
			c.Cfg.ReplaceKeysRegex = map[string]string{`^\..*$`: "all"}

			return c
		})
	})

	// Many keys in one column.
	for n := 2; n <= 12; n++ {
		m := map[string]string{}

		var kv, rv []string

		for i := 0; i < n; i++ {
			m[".k"+num(i)] = "v"
			kv = append(kv, "k"+num(i), num(i))
			rv = append(rv, "k"+num(n-1-i), `"`+num(n-1-i)+`"`)
		}

		for _, d := range []*string{nil, ptr(","), ptr("")} {
			add(m, d, obj(kv...), obj(rv...), `{}`, obj(kv[2:]...), obj(kv[:2]...))
			add(m, d, obj(rv...), obj(kv[4%len(kv):]...))
		}
	}

	// Constants.
	for _, inc := range [][]string{{".a", "const:k"}, {"const:k", ".a"}, {"const:k", ".b", "const:", ".a"}, {"const:a,b", "const:x\"y"}, {"const:1"}} {
		upTo([]string{`{}`, `{"a":1}`, `{"b":"x"}`, `{"a":null,"b":2}`}, 3, func(s []string) {
			g.add(func() *Case {
				c := csvCase(lines(s...))
				c.Cfg.IncludeKeys = inc

				return c
			})
			g.add(func() *Case {
				c := csvCase(lines(s...))
				c.Cfg.IncludeKeys = inc
				c.Cfg.IncludeKeysRegex = []string{".*"}
				c.Cfg.ReplaceKeys = map[string]string{"const:k": "konst", "const:1": "one"}

				return c
			})
		})
	}

	// Every output, and transposition next to merged keys.
	upTo([]string{`{"a":1,"b":"x","t":[1]}`, `{"b":2,"t":{"p":{"m":3}}}`, `{"a":"y"}`, `{"t":[{"m":4,"n":5}],"b":null,"a":6}`}, 3, func(s []string) {
		for n := 0; n < 3; n++ {
			g.add(func() *Case {
				c := csvCase(lines(s...)).allOut()
				c.Cfg.ReplaceKeys = maps[0]

				switch n {
				case 1:
					c.Cfg.Transpose = map[string]string{".t": "tt"}
				case 2:
					c.Cfg.ConcatDelimiter = ptr(";")
					c.Cfg.Transpose = map[string]string{".t": "tt"}
				}

				return c
			})
		}
	})
}

// --- C28 ---

func casesFieldLimit(g *Gen) {
	for n := 0; n <= 9; n++ {
		for limit := 1; limit <= 9; limit++ {
			s := `"` + rep("x", n) + `"`

			mk := func(ls ...string) *Case {
				c := csvCase(lines(ls...))
				c.Opts.FieldLimit = limit

				return c
			}

			g.add(func() *Case { return mk(obj("a", s, "b", "1")) })
			g.add(func() *Case { return mk(obj("b", "123456789012", "a", s), obj("a", "true", "c", s)) })
			g.add(func() *Case {
				c := mk(obj("a", s, "b", `"`+rep("y", 5)+`"`), obj("b", s))
				c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}

				return c
			})
			g.add(func() *Case {
				c := mk(obj("a", s, "b", `"`+rep("y", 5)+`"`), obj("b", s))
				c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
				c.Cfg.ConcatDelimiter = ptr("-")

				return c
			})
			g.add(func() *Case {
				c := mk(obj("a", s, "t", "["+s+",1]"), obj("b", `"q`+rep("\\\"", n)+`"`))
				c.Opts.PG = "/out/o.sql"
				c.Opts.SQLite = "/out/o.sqlite"
				c.Cfg.Transpose = map[string]string{".t": "tt"}

				return c
			})
			// What is at the limit does not matter.
			for _, u := range []string{" ", "\\n", "\\\"", "é", "€", "{", "1", ",", "\\u0000", ".", "\\\\", "-"} {
				g.add(func() *Case { return mk(obj("a", `"`+rep("x", limit-1)+rep(u, n)+`z"`, "b", `"`+rep(u, n)+`"`)) })
				g.add(func() *Case {
					c := mk(obj("a", `"`+rep("x", limit-1)+rep(u, n)+`z"`, "t", `["`+rep(u, n)+`x"]`), obj("b", "1"))
					c.Opts.CSV = ""
					c.Opts.Raw = "/out/o.raw"
					c.Opts.RawDelim = "|"
					c.Cfg.Transpose = map[string]string{".t": "tt"}

					if u == "\\n" {
						c.Opts.Raw, c.Opts.CSV = "", "/out/o.csv"
					}

					return c
				})
			}

			g.add(func() *Case {
				c := mk(obj("a", s, "b", s))
				c.Opts.GetKey = ".a"

				return c
			})
			g.add(func() *Case {
				c := mk(obj("a", s, "b", s))
				c.Cfg.IncludeKeys = []string{"const:" + rep("k", n), ".b"}

				return c
			})
		}
	}
}

// --- C29 ---

func casesSkipZero(g *Gen) {
	vals := []string{`0`, `1`, `""`, `"x"`, `false`, `true`, `null`, `0.0`, `-0`, `0.5`, ``, `" "`, `"0"`, `1e-9`, `0e5`}

	mk := func(ls ...string) *Case {
		c := csvCase(lines(ls...))
		c.Opts.SkipZeroCols = true

		return c
	}

	o := func(v, w string) string {
		var kv []string
		if v != "" {
			kv = append(kv, "a", v)
		}

		if w != "" {
			kv = append(kv, "b", obj("c", w))
		}

		return obj(append(kv, "z", "9")...)
	}

	n := 3
	if g.thorough {
		n = 4
	}

	upTo(vals, n, func(s []string) {
		var ls []string
		for i, v := range s {
			ls = append(ls, o(v, s[len(s)-1-i]))
		}

		g.add(func() *Case { return mk(ls...) })

		if len(s) < 3 {
			g.add(func() *Case {
				c := mk(ls...)
				c.Opts.AddSequence = true
				c.Opts.PG = "/out/o.sql"

				return c
			})
			g.add(func() *Case {
				c := mk(ls...)
				c.Opts.CaseSensitive = true
				c.Opts.ReplaceKeys = true

				return c
			})
			g.add(func() *Case {
				c := mk(ls...)
				c.Cfg.IncludeKeysRegex = []string{".a", ".z"}

				return c
			})
			g.add(func() *Case {
				c := mk(append(ls, `{"A":"x"}`, `{"A":0}`)...)
				return c
			})
		}
	})

	// Only zero columns.
	upTo([]string{`0`, `""`, `null`, `false`}, 3, func(s []string) {
		var ls []string
		for i, v := range s {
			ls = append(ls, obj("k"+num(i%2), v))
		}

		g.add(func() *Case { return mk(ls...) })
	})
}

// --- C30 ---

func casesTime(g *Gen) {
	layouts := []string{"2006-01-02", "2006-01-02T15:04:05Z07:00", "2006-01-02 15:04:05", "02/Jan/2006:15:04:05 -0700", "2006-01-02T15:04:05.999999999Z07:00", "Mon, 02 Jan 2006 15:04:05 MST", "RAW"}
	vals := []string{
		"2020-01-02", "2020-02-29", "2021-02-29", "2020-12-31T23:59:59Z", "2020-12-31T23:59:59+05:30", "2020-06-01T00:00:00-07:00", "2020-03-08 02:30:00", "2020-11-01 01:30:00",
		"1969-12-31 23:59:59", "10/Oct/2000:13:55:36 -0700", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05.120Z", "Mon, 02 Jan 2006 15:04:05 UTC", "", "x", "2020-13-01", "20200102",
		"2020-01-02T03:04:05", "9999-12-31", "0001-01-01",
	}
	outs := []string{"", "2006-01-02", "2006-01-02T15:04:05.000Z07:00", "15:04", "Jan _2 2006 MST"}
	zones := []string{"", "UTC", "America/New_York", "Asia/Kolkata", "Nowhere/Land"}

	mk := func(l, o, z string, ls ...string) *Case {
		c := csvCase(lines(ls...))
		c.Cfg.ParseTime = map[string]string{".a": l}
		c.Cfg.OutputTimeFormat = o
		c.Cfg.OutputTimezone = z

		return c
	}

	for _, l := range layouts {
		for _, v := range vals {
			for _, o := range outs {
				for _, z := range zones {
					if z == "Nowhere/Land" {
						continue
					}

					g.add(func() *Case { return mk(l, o, z, obj("a", string(quoteJSON(v)), "b", string(quoteJSON(v)))) })
				}
			}
		}
	}

	// Sequences: a value that does not parse between others, other kinds, absent.
	lits := []string{`"2020-01-02"`, `"x"`, `null`, `5`, `true`, `""`, `{"c":"2020-01-02"}`, ``}

	upTo(lits, 3, func(s []string) {
		var ls []string

		for _, v := range s {
			if v == "" {
				ls = append(ls, `{"b":"2020-01-02"}`)
				continue
			}

			ls = append(ls, obj("a", v, "b", `"2020-01-02"`))
		}

		g.add(func() *Case { return mk("2006-01-02", "2006", "America/New_York", ls...) })
		g.add(func() *Case {
			c := mk("2006-01-02", "", "", ls...)
			c.Cfg.IncludeKeys = []string{".b", ".a"}

			return c
		})
		g.add(func() *Case {
			c := mk("2006-01-02", "2006", "", ls...)
			c.Cfg.ParseTime[".b"] = "2006-01-02"

			return c
		})
	})

	// Several layouts at once, merged keys.
	upTo([]string{`{"a":"2020-01-02","b":"02.03.2021"}`, `{"b":"2020-01-02"}`, `{"a":"02.03.2021"}`, `{"c":"2020-01-02","b":"03.04.2022"}`}, 3, func(s []string) {
		for n := 0; n < 3; n++ {
			g.add(func() *Case {
				c := mk("2006-01-02", "2006|01|02", "", s...)
				c.Cfg.ParseTime[".b"] = "02.01.2006"

				switch n {
				case 1:
					c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
				case 2:
					c.Opts.GetKey = ".b"
				}

				return c
			})
		}
	})
}
