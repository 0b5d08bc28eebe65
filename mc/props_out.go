package main

import (
	"bytes"
	"fmt"
	"strings"
)

const inputNote = "inputs and configurations limited to the enumerated alphabets and lengths; one worker, schedules are decided by C01 and C02"

func init() {
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule: "a case is one complete run on a distinct sequence of value kinds under a key (or coalesced keys); the declared types of every SQL table are compared with the kinds, and every value with its column",
		Note: inputNote, Cases: casesTypes, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C07", Level: "exploration",
		Rule:  "a case is one complete run with a PostgreSQL dump on a distinct input or option set; the dump is parsed and the tables it creates are compared with the reference, cell by cell",
		Note:  inputNote + "; COPY data is read with the rules of COPY WITH (FORMAT csv)",
		Cases: casesPG, Check: checkPG,
	})
	register(&Prop{
		ID: "C08", Level: "exploration",
		Rule: "a case is one complete run with an SQLite output on a distinct input or option set; the database is read back and compared with the reference, cell by cell",
		Note: inputNote + "; strings without NUL", Cases: casesSQLite, Check: std(cmpOpt{fold: true}),
	})
	register(&Prop{
		ID: "C10", Level: "exploration",
		Rule: "a case is one complete run with a distinct set of outputs; each output is decoded and compared with the same reference table, and with the bytes of the run that writes it alone",
		Note: inputNote, Cases: casesOutputs, Check: checkOutputs,
	})
}

var kindLits = []string{`1`, `2.5`, `true`, `"x"`, `null`, `{"p":1}`, `[1]`, `1.0`, `1e3`, `""`, `"1"`, `12345678901234567890`, `-7`, `false`, `{}`, `[]`}

func casesTypes(g *Gen) {
	out := func(c *Case, sqlite bool) *Case {
		c.Opts.PG = "/out/o.sql"

		if sqlite {
			c.Opts.SQLite = "/out/o.sqlite"
		}

		return c
	}

	// Every sequence of kinds under one key.
	for n := 1; n <= 3; n++ {
		seqs(kindLits, n, func(s []string) {
			var ls []string
			for _, v := range s {
				ls = append(ls, obj("a", v))
			}

			g.add(func() *Case { return out(in(lines(ls...)), n < 3) })
		})
	}

	if g.thorough {
		seqs(kindLits[:11], 4, func(s []string) {
			var ls []string
			for _, v := range s {
				ls = append(ls, obj("a", v))
			}

			g.add(func() *Case { return out(in(lines(ls...)), true) })
		})
	}

	kinds := kindLits[:9]

	// Kept as JSON, case variants, coalesced and concatenated keys, constants, deeper keys, transposed keys.
	for n := 1; n <= 3; n++ {
		seqs(kinds, n, func(s []string) {
			keys := []string{"a", "A", "b"}

			var vl, kl, dl, tl, ol, al []string

			for i, v := range s {
				vl = append(vl, obj(keys[i%2], v))
				kl = append(kl, obj("a", v))
				dl = append(dl, obj("k", obj("d", v)))
				ol = append(ol, obj(keys[2*(i%2)], v))
				tl = append(tl, obj("t", obj("r"+num(i), v)))
				al = append(al, obj("t", `[`+v+`,{"x":`+v+`}]`))
			}

			g.add(func() *Case { return out(in(lines(vl...)), n < 3) })
			g.add(func() *Case {
				c := out(in(lines(kl...)), n < 3)
				c.Cfg.KeepJSON = []string{".a"}

				return c
			})
			g.add(func() *Case { return out(in(lines(dl...)), n < 3) })
			g.add(func() *Case {
				c := out(in(lines(tl...)), n < 3)
				c.Cfg.Transpose = map[string]string{".t": "tt"}

				return c
			})
			g.add(func() *Case {
				c := out(in(lines(al...)), n < 3)
				c.Cfg.Transpose = map[string]string{".t": "tt"}

				return c
			})
			g.add(func() *Case {
				c := out(in(lines(ol...)), n < 3)
				c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}

				return c
			})

			nul := false
			for _, v := range s {
				nul = nul || v == "null"
			}

			if !nul {
				g.add(func() *Case {
					c := out(in(lines(ol...)), n < 3)
					c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
					c.Cfg.ConcatDelimiter = ptr("::")

					return c
				})
			}

			g.add(func() *Case {
				c := out(in(lines(ol...)), n < 3)
				c.Cfg.IncludeKeysRegex = []string{".*"}
				c.Cfg.IncludeKeys = []string{"const:k"}
				c.Cfg.ReplaceKeys = map[string]string{".a": "v", "const:k": "v"}

				return c
			})
			g.add(func() *Case {
				c := out(in(lines(kl...)), n < 3)
				c.Opts.ChildrenLimit = ptr(1)

				return c
			})
		})
	}

	// Coalesced keys on one line, in every order of keys and lines.
	for _, v := range kinds {
		for _, w := range kinds {
			for _, z := range kinds {
				perms([]string{obj("a", v, "b", w), obj("b", z)}, func(ls []string) {
					g.add(func() *Case {
						c := out(in(lines(ls...)), false)
						c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}

						return c
					})
				})
			}
		}
	}

	// One column of values that are joined: spellings of a key.
	for n := 1; n <= 2; n++ {
		seqs(kinds, n, func(s []string) {
			for _, d := range []*string{nil, ptr("::"), ptr(""), ptr("0")} {
				for k, ls := range [][]string{
					{obj("a", s[0], "A", s[n-1])},
					{obj("a", s[0]), obj("a", "1", "A", s[n-1])},
					{obj("a", s[0], "b", s[n-1])},
					{obj("t", obj("x", obj("a", s[0], "A", s[n-1])))},
				} {
					g.add(func() *Case {
						c := out(in(lines(ls...)), true)
						c.Cfg.ConcatDelimiter = d

						if k == 3 {
							c.Cfg.Transpose = map[string]string{".t": "tt"}
						}

						return c
					})
				}
			}
		})
	}

	casesStamps(g)

	// Numbers.
	nums := []string{`0`, `-0`, `1`, `-1`, `1.0`, `1e0`, `1E2`, `0.5`, `-1.5e-7`, `9223372036854775807`, `-9223372036854775808`, `2147483648`, `1e400`, `100`}
	upTo(nums, 2, func(s []string) {
		var ls []string
		for _, v := range s {
			ls = append(ls, obj("a", v, "b", "1"))
		}

		g.add(func() *Case { return out(in(lines(ls...)), true) })
	})
}

// casesStamps are columns of timestamps.
func casesStamps(g *Gen) {
	vals := []string{
		`"2022-03-04"`, `"2022-12-31"`, `"2022-13-04"`, `"04.03.2022"`, `"nope"`, `""`, `null`, `1`, `true`, `1.5`, `{"p":"2022-03-04"}`, `[]`, `"2022-03-04T05:06:07Z"`,
		`"2022-03-04 05:06"`, `"2022-02-30"`, `"2022-03-04x"`,
	}

	cfgs := []option{
		{"key", func(c *Case) {}},
		{"raw", func(c *Case) { c.Cfg.ParseTime[".a"] = "RAW" }},
		{"dots", func(c *Case) { c.Cfg.ParseTime[".a"] = "02.01.2006" }},
		{"clock", func(c *Case) { c.Cfg.ParseTime[".a"] = "2006-01-02T15:04:05Z07:00" }},
		{"date", func(c *Case) { c.Cfg.OutputTimeFormat = "2006-01-02" }},
		{"words", func(c *Case) { c.Cfg.OutputTimeFormat = "Jan 2 2006" }},
		{"year", func(c *Case) { c.Cfg.OutputTimeFormat = "2006" }},
		{"zone", func(c *Case) {
			c.Cfg.OutputTimezone, c.Cfg.OutputTimeFormat = "Europe/Berlin", "2006-01-02 15:04:05.000-07:00"
		}},
		{"both", func(c *Case) { c.Cfg.ParseTime[".b"] = "2006-01-02" }},
		{"merged", func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"} }},
		{"both merged", func(c *Case) {
			c.Cfg.ParseTime[".b"] = "02.01.2006"
			c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
		}},
		{"joined", func(c *Case) {
			c.Cfg.ParseTime[".b"] = "2006-01-02"
			c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
			c.Cfg.ConcatDelimiter = ptr(" ")
		}},
		{"constant", func(c *Case) {
			c.Cfg.IncludeKeysRegex, c.Cfg.IncludeKeys = []string{".*"}, []string{"const:k"}
			c.Cfg.ReplaceKeys = map[string]string{".a": "v", "const:k": "v"}
		}},
		{"kept", func(c *Case) { c.Cfg.KeepJSON = []string{".a"} }},
		{"cut", func(c *Case) { c.Opts.FieldLimit = 10 }},
		{"cut short", func(c *Case) { c.Opts.FieldLimit = 9 }},
		{"included", func(c *Case) { c.Cfg.IncludeKeys = []string{".a", ".b"} }},
		{"got", func(c *Case) { c.Opts.GetKey = ".a" }},
		{"sensitive", func(c *Case) { c.Opts.CaseSensitive = true }},
		{"extracted", func(c *Case) { c.Opts.ExtractStrings = true }},
	}

	n := 2
	if g.thorough {
		n = 3
	}

	upTo(vals, n, func(s []string) {
		for _, f := range cfgs {
			for k := 0; k < 4; k++ {
				if k > 0 && len(s) == n && n == 3 {
					continue
				}

				g.add(func() *Case {
					keys := [][]string{{"a"}, {"a", "b"}, {"a", "A"}, {"t"}}[k]

					var ls []string

					for i, v := range s {
						if k == 3 {
							v = "[" + v + "," + obj("x", v) + "]"
						}

						ls = append(ls, obj(keys[i%len(keys)], v))
					}

					if k == 1 {
						ls = append(ls, obj("a", s[0], "b", s[len(s)-1]))
					}

					c := in(lines(ls...))
					c.Opts.PG = "/out/o.sql"
					c.Tag = f.name
					c.Cfg.ParseTime = map[string]string{".a": "2006-01-02"}
					f.f(c)

					if k == 3 {
						c.Opts.GetKey = ""
						c.Cfg.KeepJSON = nil
						c.Cfg.Transpose = map[string]string{".t": "tt"}
						c.Cfg.ParseTime[".t.[0]"] = c.Cfg.ParseTime[".a"]
						c.Cfg.ParseTime[".t.[1].x"] = "2006-01-02"
					}

					return c
				})
			}
		}
	})

	// Captures of the prefix.
	for _, p := range []string{"2022-03-04", "2022-03-99", "x"} {
		for _, q := range []string{"2022-03-05", "y"} {
			g.add(func() *Case {
				c := in(lines(p+` {"a":1}`, q+` {"a":2}`))
				c.Opts.PG = "/out/o.sql"
				c.Opts.MatchLinePrefix = `^(\S+) `
				c.Cfg.ParseTime = map[string]string{"._prefix.[0]": "2006-01-02"}

				return c
			})
		}
	}

	// The ends of the calendar.
	for _, y := range []string{"0000", "0001", "0002", "0009", "0010", "9989", "9990", "9999"} {
		for _, d := range []string{"-01-01T00:00:00Z", "-12-31T23:59:59Z", "-12-31T23:59:59-10:00", "-01-01T00:00:00+10:00"} {
			for _, z := range []string{"", "UTC", "Pacific/Kiritimati", "America/Los_Angeles"} {
				g.add(func() *Case {
					c := in(lines(obj("a", `"`+y+d+`"`)))
					c.Opts.PG = "/out/o.sql"
					c.Cfg.ParseTime = map[string]string{".a": "2006-01-02T15:04:05Z07:00"}
					c.Cfg.OutputTimezone = z

					return c
				})
			}
		}
	}
}

// tableDocs are inputs that make tables of different shapes.
var tableDocs = []string{
	`{}`, `{"a":1}`, `{"a":"x"}`, `{"b":true,"a":null}`, `{"a":{"b":1.5}}`, `{"a":[1,"y"]}`, `{"c":"q\"u,o\nte","b":"' \\ $"}`, `{"A":2}`,
}

func casesPG(g *Gen) {
	mk := func(ls ...string) *Case {
		c := in(lines(ls...))
		c.Opts.PG = "/out/o.sql"

		return c
	}

	for _, v := range scalarsMany {
		for _, w := range []string{"", `"z"`, `1`, `null`, `true`, `2.5`} {
			g.add(func() *Case {
				if w == "" {
					return mk(obj("a", v))
				}

				return mk(obj("a", v), obj("a", w, "b", v))
			})
		}
	}

	upTo([]string{`a`, `\"`, `,`, `\n`, `\r`, `\\`, `.`, `'`, `$`, `;`, `\t`, `é`, ` `, `N`}, 3, func(s []string) {
		g.add(func() *Case { return mk(`{"a":"`+strings.Join(s, "")+`","b":"z"}`, `{"b":1}`) })
	})

	upTo([]string{`a`, `\"`, `.`, `'`, ` `, `A`, `;`, `\\`, `[`, `\n`, `é`, `$`}, 2, func(s []string) {
		g.add(func() *Case { return mk(`{"`+strings.Join(s, "")+`":"v"}`, `{"b":1}`) })
	})

	upTo(tableDocs, 3, func(s []string) {
		g.add(func() *Case { return mk(s...) })
	})

	uniformRows(g, mk)

	// Parts.
	for cols := 1; cols <= 13; cols++ {
		for max := 2; max <= 14; max++ {
			for _, tr := range []int{0, 1} {
				g.add(func() *Case {
					var ls []string

					for r := 0; r < 3; r++ {
						var kv []string

						for i := 0; i < cols; i++ {
							if (r+i)%3 != 0 || r == 0 {
								kv = append(kv, "k"+num(i), []string{num(i), `"s"`, `true`, `1.5`}[(i+r*(i%2))%4])
							}
						}

						o := obj(kv...)
						if tr == 1 {
							o = obj("t", obj("x", o, "y", obj("k0", num(r))), "m", num(r))
						}

						ls = append(ls, o)
					}

					c := mk(ls...)
					c.Opts.SQLMaxCols = max

					if tr == 1 {
						c.Cfg.Transpose = map[string]string{".t": "tt"}
					}

					return c
				})
			}
		}
	}

	// Rows without a value in the first columns, blank rows.
	for max := 2; max <= 4; max++ {
		seqs([]string{`{}`, `{"a":""}`, `{"b":"x"}`, `{"d":null}`, `{"a":"p","b":"q","c":"r","d":"s"}`}, 3, func(s []string) {
			g.add(func() *Case {
				c := mk(append(s, `{"a":"p","b":"q","c":"r","d":"s"}`)...)
				c.Opts.SQLMaxCols = max

				return c
			})
		})
	}

	for _, n := range []string{"events", "My Table", `q"t`, "a.b", "select", "é", "x_part2"} {
		g.add(func() *Case {
			c := mk(`{"a":1,"t":{"x":2}}`, `{"b":"x"}`)
			c.Opts.SQLTable = n
			c.Cfg.Transpose = map[string]string{".t": "tt"}

			return c
		})
	}

	for _, f := range []string{"/out/o.sql.gz", "/out/o.sql.zst", "/out/o"} {
		upTo(tableDocs[:5], 2, func(s []string) {
			g.add(func() *Case {
				c := mk(s...)
				c.Opts.PG = f

				return c
			})
		})
	}

	features(g, func(c *Case) *Case {
		c.Opts.PG = "/out/o.sql"
		return c
	})

	// Many rows: data is flushed in portions.
	for _, n := range []int{9999, 10000, 10001, 20001} {
		g.add(func() *Case {
			var sb strings.Builder

			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, `{"a":%d,"t":[%d]}`+"\n", i, i)
			}

			c := in(sb.String())
			c.MaxStep = 1 << 30
			c.Opts.PG = "/out/o.sql"
			c.Cfg.Transpose = map[string]string{".t": "tt"}

			return c
		})
	}
}

func checkPG(x *Ctx, o *Obs) string { return stdCheck(x, o, cmpOpt{}) }

// features covers the mapping options, each on a few inputs.
func features(g *Gen, with func(c *Case) *Case) {
	opts := []func(c *Case){
		func(c *Case) {},
		func(c *Case) { c.Opts.AddSequence = true },
		func(c *Case) { c.Opts.ReplaceKeys = true },
		func(c *Case) { c.Cfg.Transpose = map[string]string{".t": "tt"} },
		func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"} },
		func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "x y", ".b": `q"`} },
		func(c *Case) { c.Cfg.IncludeKeys = []string{".b", "const:k", ".a"} },
		func(c *Case) { c.Opts.GetKey = ".a" },
		func(c *Case) { c.Cfg.ExcludeKeys = []string{".a"} },
		func(c *Case) { c.Cfg.KeepJSON = []string{".t"} },
		func(c *Case) { c.Cfg.ParseTime = map[string]string{".a": "2006-01-02"} },
		func(c *Case) { c.Opts.ExtractStrings = true },
		func(c *Case) { c.Opts.OffsetLines = 1 },
		func(c *Case) { c.Opts.MaxLines = 2 },
		func(c *Case) { c.Opts.ChildrenLimit = ptr(1) },
	}

	ins := [][]string{
		{`{"a":"2020-01-02","b":"x","t":[1,2]}`, `{"a":"2021-03-04","t":{"p":"q"}}`, `{"b":"{\"z\":1}"}`},
		{`{"b":"y"}`, `{"a":"1999-12-31","t":[{"u":1,"w":"x"},{"u":2}]}`, `{}`, `{"a":"2020-01-02","t":"s"}`},
	}

	for _, f := range opts {
		for _, ls := range ins {
			g.add(func() *Case {
				c := with(in(lines(ls...)))
				f(c)

				return c
			})
			g.add(func() *Case {
				c := with(in(lines(ls...)))
				f(c)
				c.Opts.SQLMaxCols = 2

				return c
			})
		}
	}
}

func casesSQLite(g *Gen) {
	mk := func(ls ...string) *Case {
		c := in(lines(ls...))
		c.Opts.SQLite = "/out/o.sqlite"

		return c
	}

	for _, v := range scalarsMany {
		for _, w := range []string{"", `"z"`, `1`, `2.5`} {
			g.add(func() *Case {
				if w == "" {
					return mk(obj("a", v))
				}

				return mk(obj("a", v), obj("a", w, "b", v))
			})
		}
	}

	upTo([]string{`a`, `\"`, `'`, `\n`, `\\`, `;`, `%`, `?`, `é`, ` `}, 2, func(s []string) {
		g.add(func() *Case { return mk(`{"a":"`+strings.Join(s, "")+`","b":"z"}`, `{"b":1}`) })
	})

	upTo([]string{`a`, `\"`, `.`, `'`, ` `, `A`, `;`, `\\`, `[`, "`", `é`, `?`, `]`}, 2, func(s []string) {
		g.add(func() *Case { return mk(`{"`+strings.Join(s, "")+`":"v"}`, `{"b":1}`) })
	})

	upTo(tableDocs, 3, func(s []string) {
		g.add(func() *Case { return mk(s...) })
	})

	for cols := 1; cols <= 9; cols++ {
		for max := 2; max <= 10; max++ {
			for _, tr := range []int{0, 1} {
				g.add(func() *Case {
					var ls []string

					for r := 0; r < 3; r++ {
						var kv []string

						for i := 0; i < cols; i++ {
							if (r+i)%3 != 0 || r == 0 {
								kv = append(kv, "k"+num(i), []string{num(i), `"s"`, `true`, `1.5`}[(i+r*(i%2))%4])
							}
						}

						o := obj(kv...)
						if tr == 1 {
							o = obj("t", obj("x", o, "y", obj("k0", num(r))), "m", num(r))
						}

						ls = append(ls, o)
					}

					c := mk(ls...)
					c.Opts.SQLMaxCols = max

					if tr == 1 {
						c.Cfg.Transpose = map[string]string{".t": "tt"}
					}

					return c
				})
			}
		}
	}

	for _, n := range []string{"events", "My Table", `q"t`, "a.b", "select", "é"} {
		g.add(func() *Case {
			c := mk(`{"a":1,"t":{"x":2}}`, `{"b":"x"}`)
			c.Opts.SQLTable = n
			c.Cfg.Transpose = map[string]string{".t": "tt"}

			return c
		})
	}

	uniformRows(g, mk)

	features(g, func(c *Case) *Case {
		c.Opts.SQLite = "/out/o.sqlite"
		return c
	})

	for _, n := range []int{999, 1000, 1001, 2001} {
		for _, max := range []int{2, 500} {
			g.add(func() *Case {
				var sb strings.Builder

				for i := 0; i < n; i++ {
					fmt.Fprintf(&sb, `{"a":%d,"t":[%d],"b":"x%d"}`+"\n", i, i, i)
				}

				c := in(sb.String())
				c.Opts.SQLite = "/out/o.sqlite"
				c.Opts.SQLMaxCols = max
				c.Cfg.Transpose = map[string]string{".t": "tt"}

				return c
			})
		}
	}
}

// uniformRows adds tables with rows of which all columns, or all but one, hold the same.
func uniformRows(g *Gen, mk func(ls ...string) *Case) {
	row := func(n int, v string, but int) string {
		var kv []string

		for i := 0; i < n; i++ {
			if w := v; i == but {
				kv = append(kv, "k"+num(i), `"x"`)
			} else if w != "" {
				kv = append(kv, "k"+num(i), w)
			}
		}

		return obj(kv...)
	}

	for _, n := range []int{1, 2, 4, 7} {
		kinds := []string{
			row(n, "null", -1), "{}", row(n, `""`, -1), row(n, "0", -1), row(n, "false", -1), row(n, "null", 0), row(n, "null", n-1), row(n, "", n-1), row(n, `"y"`, -1),
			"not JSON", "", row(n, "{}", -1),
		}

		depth := 2
		if g.thorough || n == 4 {
			depth = 3
		}

		upTo(kinds, depth, func(s []string) {
			if len(s) == 0 {
				return
			}

			for _, max := range []int{0, 3} {
				for _, first := range []bool{false, true} {
					ls := append([]string(nil), s...)
					if first {
						ls = append([]string{row(n, "1", -1)}, ls...)
					}

					g.add(func() *Case {
						c := mk(ls...)
						c.Opts.SQLMaxCols = max

						return c
					})

					if len(s) == 3 {
						continue
					}

					g.add(func() *Case {
						var tr []string
						for i, l := range ls {
							if strings.HasPrefix(l, "{") {
								l = obj("k", l, "l", obj("e", num(i)))
							}

							tr = append(tr, l)
						}

						c := mk(tr...)
						c.Opts.SQLMaxCols = max
						c.Cfg.Transpose = map[string]string{".k": "tt"}

						return c
					})
				}
			}
		})
	}
}

// --- several outputs ---

func casesOutputs(g *Gen) {
	type outs struct{ csv, raw, sqlite, pg, list string }

	var sets []outs

	subsets([]string{"csv", "raw", "sqlite", "pg"}, func(s []string) {
		if len(s) == 0 {
			return
		}

		for _, z := range []string{"", ".gz", ".zst"} {
			var o outs

			for _, k := range s {
				switch k {
				case "csv":
					o.csv = "/out/o.csv" + z
				case "raw":
					o.raw = "/out/o.raw" + z
				case "sqlite":
					o.sqlite = "/out/o.sqlite"
				default:
					o.pg = "/out/o.sql" + z
				}
			}

			sets = append(sets, o)
		}
	})

	for _, l := range []string{
		"/out/l.csv", "/out/l.csv.gz,/out/l.raw", "/out/l.raw.zst,/out/l.csv.zst", "/out/L.CSV", "/out/l.sqlite,/out/l.csv", "/out/l.raw.gz,/out/l.sqlite",
		"/out/L.Raw,/out/L.Csv.Gz",
	} {
		sets = append(sets, outs{list: l})
	}

	sets = append(sets, outs{csv: "/out/o.csv", list: "/out/l.csv,/out/l.raw"}, outs{raw: "/out/o.raw", list: "/out/l.raw,/out/l.csv"},
		outs{pg: "/out/o.sql", list: "/out/l.csv"})

	ins := [][]string{
		{`{"a":1,"b":"x","t":[1,2]}`, `{"a":"y","t":{"p":"q"}}`, `{"b":"z"}`},
		{`{"b":"y"}`, `{"a":1.5,"t":[{"u":1,"w":"x"},{"u":2}]}`, `{}`, `{"a":true,"t":"s"}`},
		{`{"a":"q\"u,o\nte","b":null}`, `{"c":[{"d":1}]}`},
		{`{}`},
		{`{"a":null}`, `{"a":""}`},
		{`{"a":1,"A":2}`, `{"a":{"b":3}}`},
	}

	cfgs := []func(c *Case){
		func(c *Case) {},
		func(c *Case) { c.Cfg.Transpose = map[string]string{".t": "tt"} },
		func(c *Case) { c.Opts.AddSequence = true; c.Opts.ReplaceKeys = true },
		func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"} },
		func(c *Case) { c.Cfg.IncludeKeys = []string{".b", "const:k", ".a"} },
		func(c *Case) { c.Opts.GetKey = ".a" },
		func(c *Case) { c.Opts.SQLMaxCols = 2 },
	}

	for _, ls := range ins {
		for _, f := range cfgs {
			for _, o := range sets {
				g.add(func() *Case {
					c := in(lines(ls...))
					c.Opts.CSV, c.Opts.Raw, c.Opts.SQLite, c.Opts.PG, c.Opts.Output = o.csv, o.raw, o.sqlite, o.pg, o.list
					c.Opts.RawDelim = "|"
					f(c)

					return c
				})
			}
		}
	}

	// With all that changes the table, transposed columns first, last and between others.
	for _, ls := range [][]string{
		{`{"t":[1,{"q":2}],"a":1,"o":{"m":{"v":1},"n":{"w":2}},"b":"x","d":{"x":1,"y":null},"s":"2024-01-02","u":"/p?k=1"}`, `p {"b":2,"a":"z","t":[3],"d":{"X":4}}`, `{"A":5,"j":"{\"x\":1}"}`},
		{`{"d":{"x":1,"y":{"z":2}},"a":"1"}`, `bad`, `{"o":[{"v":1},{"w":2}],"b":null,"S":"03/04/2024","s":"bad"}`},
	} {
		for _, f := range repeatable() {
			for i, o := range sets {
				if strings.Contains(o.csv+o.raw+o.pg+o.list, ".zst") && i%2 > 0 && !g.thorough {
					continue
				}

				g.add(func() *Case {
					c := in(lines(ls...))
					f.set(c)
					c.Opts.CSV, c.Opts.Raw, c.Opts.SQLite, c.Opts.PG, c.Opts.Output = o.csv, o.raw, o.sqlite, o.pg, o.list
					c.Opts.RawDelim = "|"

					switch f.name {
					case "case":
						// Names of columns of a database are not case-sensitive.
						c.Opts.SQLite = ""
						if sqliteOf(c) != "" {
							c.Opts.CaseSensitive = false
						}
					case "replace-variants", "replace-same", "include-variants", "key-limit", "field":
						// Names are not specified: the outputs are compared with each other only.
						c.set("alike", "1")
					}

					return c
				})
			}
		}
	}
}

func checkOutputs(x *Ctx, o *Obs) string {
	if x.c.Aux["alike"] == "" {
		if msg := stdCheck(x, o, cmpOpt{fold: sqliteOf(x.c) != ""}); msg != "" {
			return msg
		}
	} else if !o.ok() {
		return "ended with " + o.status()
	}

	// Each text output has the bytes it has when written alone.
	csv, raw, _, pg := x.c.Opts.outputs()

	for _, f := range []string{csv, raw, pg} {
		if f == "" {
			continue
		}

		a := x.c.clone()
		a.Opts.CSV, a.Opts.Raw, a.Opts.SQLite, a.Opts.PG, a.Opts.Output = "", "", "", "", ""

		switch f {
		case csv:
			a.Opts.CSV = csv
		case raw:
			a.Opts.Raw = raw
		default:
			a.Opts.PG = pg
		}

		ao := a.exec(a.basePlan())
		if !ao.ok() {
			return "the run that writes only " + f + " ended with " + ao.status()
		}

		for _, n := range sortedKeys(ao.Files) {
			b, ok := o.Files[n]
			if !ok {
				return n + " is missing when there are other outputs"
			}

			if !bytes.Equal(b, ao.Files[n]) {
				return n + " differs from the run that writes it alone"
			}
		}
	}

	return ""
}

func sqliteOf(c *Case) string {
	_, _, n, _ := c.Opts.outputs()
	return n
}
