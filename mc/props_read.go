package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"strings"

	"github.com/klauspost/compress/zstd"
)

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration",
		Rule: "a case is one complete run on a distinct number of lines, offset, maximum and scan limit; header and cells are compared with the reference",
		Note: inputNote, Cases: casesWindow, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C18", Level: "exploration",
		Rule: "a case is one complete run on a distinct set of inputs with sequence numbers; every number in every table of every output is compared with the reference",
		Note: inputNote, Cases: casesSequence, Check: std(cmpOpt{fold: true}),
	})
	register(&Prop{
		ID: "C19", Level: "exploration",
		Rule: "a case is one complete run on a distinct placement of a damaged line among good ones; header and cells, empty for the damaged line, are compared with the reference",
		Note: inputNote + "; the library the program uses accepts some texts that are not JSON, those are not in the alphabet", Cases: casesDamaged, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C20", Level: "exploration",
		Rule: "a case is one complete run on a distinct sequence of prefixed lines and expression; header and cells are compared with the reference",
		Note: inputNote, Cases: casesPrefix, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C21", Level: "exploration",
		Rule: "a case is one complete run on a distinct sequence of strings with extraction enabled; header and cells are compared with the reference",
		Note: inputNote + "; URLs are decomposed by the same standard library parser", Cases: casesExtract, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C24", Level: "exploration",
		Rule: "a case is one complete run on a distinct encoding of the input, pattern of read sizes, buffer size or encoding of the outputs; header and cells are compared with the reference of the plain content",
		Note: inputNote + "; compressed inputs are made by the libraries the program uses for reading", Cases: casesTransport, Check: std(cmpOpt{fold: true}),
	})
}

// --- C17 ---

func casesWindow(g *Gen) {
	line := func(i int) string {
		return []string{obj("a", num(i)), obj("a", `"s`+num(i)+`"`, "b", num(i)), obj("k"+num(i), "true", "a", "1.5"), ``, `{}`, obj("b", `"z`+num(i)+`"`), obj("c", "["+num(i)+"]")}[i%7]
	}

	data := func(from, n int) string {
		var ls []string
		for i := from; i < from+n; i++ {
			ls = append(ls, line(i))
		}

		return lines(ls...)
	}

	top := 5
	if g.thorough {
		top = 8
	}

	for n := 1; n <= top; n++ {
		for off := 0; off <= n+1; off++ {
			for max := 0; max <= n+2; max++ {
				for scan := 0; scan <= n+1; scan++ {
					for v := 0; v < 5; v++ {
						g.add(func() *Case {
							c := csvCase(data(v, n))
							c.Opts.OffsetLines, c.Opts.MaxLines, c.Opts.MaxLinesKeys = off, max, scan

							switch v {
							case 1:
								c.Files[0].Data = strings.TrimSuffix(c.Files[0].Data, "\n") + " "
							case 2:
								c.Opts.AddSequence = true
							case 3:
								c.Files = append(c.Files, File{"/in/b.log", data(v+n, n)})
							case 4:
								c.Opts.GetKey = ".a"
							}

							return c
						})
					}

					if scan > 1 {
						continue
					}

					for m := 1; m <= 3; m++ {
						g.add(func() *Case {
							c := csvCase(data(0, n))
							c.Opts.OffsetLines, c.Opts.MaxLines, c.Opts.MaxLinesKeys = off, max, scan
							c.Files = append(c.Files, File{"/in/b.log", data(n+1, m)}, File{"/in/c.log", data(n+m, n)})
							c.Opts.AddSequence = true

							if m == 2 {
								c.Cfg.IncludeKeys = []string{".a", ".b"}
							}

							if m == 3 {
								c.Opts.Concurrency = 4
								c.Cfg.IncludeKeys = []string{".a"}
							}

							return c
						})
					}
				}
			}
		}
	}

	// Line ends, lines around buffer sizes, damaged and blank lines count.
	ls := []string{`{"a":1}`, ``, `{"a":"` + rep("x", 4090) + `"}`, `{bad`, "{\"a\":2}\r", `pre {"a":3}`, `{"a":"` + rep("y", 5000) + `"}`}

	seqs(ls, 3, func(s []string) {
		for off := 0; off <= 2; off++ {
			for max := 0; max <= 2; max++ {
				g.add(func() *Case {
					c := csvCase(`{"a":0}` + "\n" + strings.Join(s, "\n"))
					c.Opts.OffsetLines, c.Opts.MaxLines = off, max

					return c
				})
			}
		}
	})

	for _, n := range []int{99, 100, 101, 250} {
		for _, off := range []int{0, 1, 98, 99, 100, 101} {
			for _, max := range []int{0, 1, 99, 100, 101} {
				g.add(func() *Case {
					c := csvCase(data(0, n))
					c.Opts.OffsetLines, c.Opts.MaxLines = off, max
					c.Opts.Concurrency = 1 + (off+max)%2*3
					c.Cfg.IncludeKeys = []string{".a", ".b"}

					return c
				})
			}
		}
	}
}

// --- C18 ---

func casesSequence(g *Gen) {
	big := 1000020
	if g.thorough {
		big = 2100000
	}

	for v := 0; v < 2; v++ {
		g.add(func() *Case {
			c := in(strings.Repeat("{}\n", big-3) + "{\"t\":[1]}\n\n{}\n")
			c.Free = true
			c.Opts.AddSequence = true

			if v == 0 {
				c.Opts.CSV = "/out/o.csv"
			} else {
				c.Opts.PG = "/out/o.sql"
			}

			if g.thorough {
				c.Cfg.Transpose = map[string]string{".t": "tt"}
			} else {
				c.Cfg.IncludeKeys = []string{"._sequence"}
			}

			return c
		})
	}

	alpha := []string{`{"a":1}`, `{"a":"x","t":[1,{"p":2}]}`, ``, `{}`, `{bad`, `text only`, `{"t":{"k":3}}`}

	split := func(s []string, cuts int) []File {
		var fs []File

		for i := range s {
			if i == 0 || cuts&(1<<(i-1)) != 0 {
				fs = append(fs, File{Name: "/in/" + string(rune('a'+len(fs))) + ".log"})
			}

			f := &fs[len(fs)-1]
			f.Data += s[i] + "\n"
		}

		return fs
	}

	for n := 1; n <= 3; n++ {
		seqs(alpha, n, func(s []string) {
			for cuts := 0; cuts < 1<<(n-1); cuts++ {
				for v := 0; v < 3; v++ {
					if v == 2 && n == 3 && cuts != 0 && !g.thorough {
						continue
					}

					g.add(func() *Case {
						c := &Case{Files: split(s, cuts)}
						c.Opts.CSV = "/out/o.csv"
						c.Opts.AddSequence = true
						c.Cfg.Transpose = map[string]string{".t": "tt"}

						switch v {
						case 1:
							c.Opts.PG = "/out/o.sql"
							c.Opts.SQLMaxCols = 2
							c.Opts.AddSequence = false
						case 2:
							c.allOut()
							c.Opts.OffsetLines = 1
						}

						return c
					})
				}
			}
		})
	}

	for n := 0; n < 6; n++ {
		upTo(alpha, 2, func(s []string) {
			g.add(func() *Case {
				c := csvCase(lines(s...))
				c.Opts.AddSequence = true

				switch n {
				case 0:
					c.Cfg.IncludeKeys = []string{".a", "._sequence"}
				case 1:
					c.Opts.GetKey = "._sequence"
				case 2:
					c.Cfg.ExcludeKeys = []string{"._sequence"}
				case 3:
					c.Cfg.ReplaceKeys = map[string]string{"._sequence": "id"}
				case 4:
					c.Opts.ReplaceKeys = true
				case 5:
					c.Cfg.IncludeKeysRegex = []string{"._sequence", ".t.*"}
				}

				return c
			})
		})
	}

	// Large numbers.
	ns := []int{9, 10, 11, 99, 100, 101, 999, 1000, 1001, 12345}

	for _, n := range ns {
		for v := 0; v < 2; v++ {
			g.add(func() *Case {
				var sb strings.Builder

				for i := 1; i <= n; i++ {
					fmt.Fprintf(&sb, `{"n":%d,"t":[%d]}`+"\n", i, i)
				}

				c := csvCase(sb.String())
				c.Opts.AddSequence = true
				c.MaxStep = 1 << 30
				c.Cfg.Transpose = map[string]string{".t": "tt"}

				if v == 1 && n < 2000 {
					c.allOut()
				}

				if n > 2000 {
					c.Free = true
				}

				return c
			})
		}
	}

}

// --- C19 ---

func casesDamaged(g *Gen) {
	doc := `{"a":{"b":[1,"x\"y",true]},"c":null,"d":1.5e3,"é":"\u00e9"}`

	bad := []string{
		`{`, `{"a"`, `{"a":`, `{"a":1`, `{"a":1,`, `{"a":1,}`, `{,}`, `{"a" 1}`, `{a:1}`, `{"a":"x}`, `{"a":"x\"}`, `{"a":[1}`, `{"a":[1,]}`, `{"a":{"b":2}`, `{"a":tru}`, `{"a":nul}`,
		`{"a":}`, `{"a":1 "b":2}`, `{"b":7,"a":}`, `{'a':1}`, `{"a":"x","b":{"c":[`, `}`, `]`, `null`, `123`, `"s"`, `[1,2]`, `text`, ` `, "\t", ``, `{{}}`, `{[]}`, `{"a"}`, `{"a":1;}`,
		"\x00", "{\x00}", `{"a":]}`, `{"a":{]}`, `{"k9":{"z":1},"a":`,
	}

	for i := 1; i < len(doc); i++ {
		bad = append(bad, doc[:i])
	}

	good := []string{`{"a":1}`, `{"a":"x","c":[2]}`, `{"b":true}`, `{}`}

	add := func(ls ...string) {
		g.add(func() *Case { return csvCase(lines(ls...)) })
	}

	for _, b := range bad {
		for _, x := range good {
			add(b, x)
			add(x, b)
			add(x, b, good[1])
			add(good[2], b, b, x)
		}

		add(b)
		add(good[1], b, good[0], b, good[2])

		for n := 0; n < 8; n++ {
			g.add(func() *Case {
				c := csvCase(lines(good[1], b, good[0], good[2]))

				switch n {
				case 0:
					c.Opts.GetKey = ".a"
				case 1:
					c.Opts.AddSequence = true
				case 2:
					c.Cfg.IncludeKeys = []string{".a", "const:k", ".b"}
				case 3:
					c.Opts.PG = "/out/o.sql"
					c.Opts.SQLite = "/out/o.sqlite"
					c.Cfg.Transpose = map[string]string{".c": "cc"}
				case 4:
					c.Opts.Concurrency = 3
					c.Cfg.IncludeKeys = []string{".a", ".b"}
				case 5:
					c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
				case 6:
					c.Opts.MatchLinePrefix = `^(\w+)`
				case 7:
					c.Opts.ExtractStrings = true
				}

				return c
			})
		}

		// Inside of strings.
		g.add(func() *Case {
			c := csvCase(lines(obj("a", string(quoteJSON(b))), obj("a", string(quoteJSON(good[1]))), obj("a", `"[1]"`)))
			c.Opts.ExtractStrings = true

			return c
		})
	}

	// One character of a line is lost, doubled or replaced.
	for _, d := range []string{
		`{"a": 1, "b": {"c": [2, {"d": "x"}], "e": null}, "f": "g {h} [i]"}`,
		`{"a":[{"b":1},{"b":"{\"c\": 2}"}], "d":{"a":-1.5e3},"e":true}`,
		`t=1 {"a": {"b": {"c": 1}}, "b": [ {"d": 2} ]} {"k": 3}`,
	} {
		mutate(d, func(l string) {
			for n := 0; n < 4; n++ {
				if n > 0 && !g.thorough && len(l)%4 != n {
					continue
				}

				g.add(func() *Case {
					c := csvCase(lines(good[1], l, good[0]))

					switch n {
					case 1:
						c.Opts.Concurrency = 2
						c.Cfg.IncludeKeys = []string{".a", ".b", ".b.c.[0]"}
					case 2:
						c.Opts.ExtractStrings = true
						c.Opts.AddSequence = true
					case 3:
						c.Opts.MatchLinePrefix = `(\d)`
						c.Opts.SQLite = "/out/o.sqlite"
					}

					return c
				})
			}
		})
	}

	few := []string{bad[3], bad[20], bad[22], ``, `text`, good[0], good[1], good[2]}

	n := 4
	if g.thorough {
		n = 5
	}

	seqs(few, n, func(s []string) { add(s...) })

	// A worker meets many.
	for _, n := range []int{99, 100, 101, 301} {
		for _, conc := range []int{1, 3} {
			g.add(func() *Case {
				var ls []string

				for i := 0; i < n; i++ {
					switch i % 4 {
					case 0:
						ls = append(ls, obj("a", num(i)))
					case 1:
						ls = append(ls, bad[i%len(bad)])
					case 2:
						ls = append(ls, obj("b", `"`+num(i)+`"`))
					default:
						ls = append(ls, `{"a":1,"b":`+num(i))
					}
				}

				c := csvCase(lines(ls...))
				c.Opts.Concurrency = conc
				c.Cfg.IncludeKeys = []string{".a", ".b"}

				return c
			})
		}
	}
}

// mutate lists texts that differ from s by one character, or by where they end or start.
func mutate(s string, f func(string)) {
	for i := range s {
		f(s[:i])
		f(s[i:])
		f(s[:i] + s[i+1:])
		f(s[:i] + s[i:i+1] + s[i:])

		for _, ch := range "{}[]\",: 0x\\-.e" {
			f(s[:i] + string(ch) + s[i+1:])
			f(s[:i] + string(ch) + s[i:])
		}
	}
}

// --- C20 ---

func casesPrefix(g *Gen) {
	prefixes := []string{``, `12 `, `ab 34 `, `x`, ` `, `7:8 9:10 `, `[`, `"q",`, `{`, "é5 "}
	bodies := []string{`{"a":1}`, `{"a":"x","b":[2]}`, `{}`, ``, `{bad`}
	exprs := []string{`(\d+)`, `^(\w+) (\d+)`, `(\w)(\d)?`, `\d+`, `(.*)`, `^$`, `(\d+):(\d+)`, `()`}

	var ls []string

	for _, p := range prefixes {
		for _, b := range bodies {
			ls = append(ls, p+b)
		}
	}

	for _, e := range exprs {
		for i, l := range ls {
			g.add(func() *Case {
				c := csvCase(l + "\n" + `5 {"a":"z"}` + "\n")
				c.Opts.MatchLinePrefix = e

				return c
			})
			g.add(func() *Case {
				c := csvCase(`ab 6 {"a":"z"}` + "\n" + l + "\n")
				c.Cfg.MatchLinePrefix = e

				return c
			})

			for j, m := range ls {
				if !g.thorough && (i+j)%3 != 0 {
					continue
				}

				g.add(func() *Case {
					c := csvCase(lines(l, m))
					c.Opts.MatchLinePrefix = e

					return c
				})
			}
		}
	}

	// Captures are values like others.
	semi := ";"

	for _, e := range append(exprs, `(\w)`, `(\w+) ?(\d+)?`) {
		for i, l := range ls {
			for n := 0; n < 9; n++ {
				g.add(func() *Case {
					c := csvCase(lines(l, `ab 12 cd 2020-01-02T03:04:05Z {"a":"z"}`, ls[(i*11+5)%len(ls)]))
					c.Opts.MatchLinePrefix = e
					c.Cfg.ConcatDelimiter = &semi

					switch n {
					case 1:
						c.Cfg.ReplaceKeys = map[string]string{"._prefix.[0]": "p", ".a": "p"}
					case 2:
						c.Cfg.ReplaceKeys = map[string]string{"._prefix.[0]": "p", "._prefix.[1]": "p"}
					case 3:
						c.Opts.FieldLimit = 2
					case 4:
						c.Cfg.Transpose = map[string]string{"._prefix": "pre"}
						c.Cfg.ConcatDelimiter = nil
					case 5:
						c.Cfg.ParseTime = map[string]string{"._prefix.[0]": "2006-01-02T15:04:05Z07:00"}
						c.Cfg.OutputTimezone = "Asia/Tokyo"
						c.Cfg.ConcatDelimiter = nil
					case 6:
						c.Opts.PG = "/out/o.sql"
						c.Opts.Raw = "/out/o.raw"
					case 7:
						c.Opts.SkipZeroCols = true
						c.Cfg.ConcatDelimiter = nil
					case 8:
						c.Cfg.IncludeKeys = []string{"._prefix.[0]", ".a"}
					}

					return c
				})
			}
		}
	}

	for i, l := range ls {
		for n := 0; n < 8; n++ {
			g.add(func() *Case {
				c := csvCase(lines(l, ls[(i*7+3)%len(ls)], `9 8 {"b":1}`))
				c.Opts.MatchLinePrefix = `(\w+) (\d+)?`

				switch n {
				case 0:
					c.Opts.MatchLinePrefix = ""
				case 1:
					c.Opts.AddSequence = true
				case 2:
					c.Cfg.ReplaceKeys = map[string]string{"._prefix.[0]": "p", ".a": "p"}
				case 3:
					c.Cfg.IncludeKeys = []string{"._prefix.[0]", ".a"}
				case 4:
					c.Opts.GetKey = "._prefix.[1]"
				case 5:
					c.Opts.ExtractStrings = true
				case 6:
					c.Opts.ReplaceKeys = true
				case 7:
					c.Opts.Concurrency = 3
					c.Cfg.IncludeKeys = []string{"._prefix.[0]", ".a"}
				}

				return c
			})
		}
	}

	// JSON after text, with brackets and quotes in the text.
	for _, p := range []string{`a}b `, `"x":`, `\`, `]`, `a=b c=d `, `2020-01-02T03:04:05Z INFO msg=`, `[info] `} {
		for _, b := range bodies[:3] {
			for _, e := range []string{"", `(\S+)`, `msg=(\w*)`, `(.)`} {
				g.add(func() *Case {
					c := csvCase(lines(p+b, b, p+p+b))
					c.Opts.MatchLinePrefix = e

					return c
				})
			}
		}
	}
}

// --- C21 ---

func casesExtract(g *Gen) {
	q := func(s string) string { return string(quoteJSON(s)) }

	mk := func(f func(c *Case), ls ...string) {
		g.add(func() *Case {
			c := csvCase(lines(ls...))
			f(c)

			return c
		})
	}

	all := func(c *Case) { c.Opts.ExtractStrings = true }
	off := func(*Case) {}
	rx := func(c *Case) { c.Cfg.ExtractValuesRegex = map[string]string{".a": "JSON", ".u": "URL"} }
	both := func(c *Case) { rx(c); all(c) }
	star := func(c *Case) { c.Cfg.ExtractValuesRegex = map[string]string{"^.*$": "JSON"} }

	modes := []func(c *Case){all, off, rx, both, star}
	vals := values([]string{`"x"`, `1`, `null`}, []string{"p", "q"}, 1, 2)
	vals = append(vals, `{"p":{"q":[1,{"r":2}]}}`, `{"p":"{\"q\":1}"}`, `["[\"[3]\"]"]`, `{`, `[`, `{}`, `[]`, `{"p"`, `[1`, ` {"p":1}`, `{"p":1} `, `{"p":1}x`, `nul`, `{"":1}`, `{"p.q":1}`, `[1,2`, `"s"`)

	for _, v := range vals {
		for _, m := range modes {
			mk(m, obj("a", q(v), "b", "1"))
			mk(m, obj("b", "["+q(v)+"]"))
			mk(m, obj("a", q(v)), obj("a", `"plain"`), obj("a", q(`{"p":9}`)))
		}

		mk(all, obj("a", q(obj("i", q(v)))))
		mk(star, obj("a", q(obj("i", q(v)))))
		mk(both, obj("a", q("["+q(v)+"]"), "u", q(v)))
	}

	// Texts in texts, with other members before and after them.
	inner := []string{`{"x":[1,2,3]}`, `[1,{"y":"z"}]`, `"s"`, `{"u":"http://h/p?q=5"}`, `{"k":"{\"l\":[4,5]}","m":6}`, `plain`, `{"bad`}
	rest := []string{``, `"m":5`, `"m":[7,{"n":"v"}],"o":true`}

	for _, i1 := range inner {
		for _, i2 := range append(inner, "") {
			for _, r := range rest {
				for _, r0 := range rest[:2] {
					d := "{"

					for _, m := range []string{strings.Replace(r0, "m", "z", 1), `"i":` + q(i1), r} {
						if m != "" {
							d += m + ","
						}
					}

					if i2 != "" {
						d += `"j":` + q(i2) + ","
					}

					d = strings.TrimSuffix(d, ",") + "}"

					mk(all, obj("a", q(d), "b", "1"))
					mk(star, obj("a", q(d), "b", "1"))
					mk(all, obj("a", q("["+d+","+d+"]")), obj("a", q(d)))
				}
			}
		}
	}

	strs := []string{`{"a":"{\"p\":1}"}`, `{"a":"[2,\"y\"]"}`, `{"a":"plain"}`, `{"b":"{\"p\":{\"z\":3}}"}`, `{"a":{"JSON":{"p":4}}}`, `{"a":"http://h/p?q=5"}`, `{"a":null,"b":"x"}`}

	upTo(strs, 3, func(s []string) {
		for _, m := range modes {
			mk(m, s...)
		}
	})

	// URLs over their components.
	for _, sc := range []string{"http", "x+y", ""} {
		for _, us := range []string{"", "u@", "u:p@", ":p@"} {
			for _, h := range []string{"h", "h.example:80", "[::1]:8080", ""} {
				for _, p := range []string{"", "/", "/a", "/a/b%20c/", "//a//b"} {
					for _, qs := range []string{"", "?k=v", "?k=v&k=w&l=", "?a%5B0%5D=1&=x", "?x.y=%7B%7D"} {
						for _, fr := range []string{"", "#f"} {
							u := "//" + us + h + p + qs + fr
							if sc != "" {
								u = sc + ":" + u
							}

							if !g.thorough && len(u)%2 == 0 && us == ":p@" {
								continue
							}

							mk(all, obj("a", q(u), "b", "1"))
							mk(func(c *Case) { c.Cfg.ExtractValuesRegex = map[string]string{".a": "URL"} }, obj("a", q(u)), obj("a", `"x"`))
						}
					}
				}
			}
		}
	}

	for _, u := range []string{"://", "a://b", "http://%zz", "http://h/%", "x://y z", "http://h\u0000", "text http://h/p", "mailto:a@b", "", "a", "?k=v", "/a/b", "http://[::1"} {
		mk(all, obj("a", q(u)))
		mk(func(c *Case) { c.Cfg.ExtractValuesRegex = map[string]string{".a": "URL"} }, obj("a", q(u)), obj("a", `"http://h"`))
	}

	// Expressions that match the parts as well, and one another.
	for _, m := range []map[string]string{
		{"a": "URL"}, {"^.*$": "URL"}, {"[.]a": "URL", "[.]a[.]URL[.]q": "JSON"}, {"a": "JSON", "^.*$": "URL"}, {"URL": "URL", ".a": "URL"},
		{"URL": "JSON", "[.]a$": "URL"}, {"JSON": "URL", "[.]a$": "JSON"}, {"[0]": "URL", ".a": "URL"}, {".a": "JSON", ".a.*": "URL"}, {"a": "URL", ".a": "JSON", "^.a$": "URL"},
	} {
		for _, u := range []string{
			"", "a", "/", "/a", "a/b", "//a//b", "?k=v", "http://h", "https://u:p@h:8/x/y?k=1&k=2&l=/z?w=1#fr", "/p?r=https%3A%2F%2Fh%2Fq%3Fs%3D%2Ft", `{"p":"/x"}`, `"y"`, `["http://h/p"]`,
			`{"a":"{\"a\":\"/z\"}"}`, "\xc3\xa9/\xc3\xa9", "a%2Fb", "?{\"x\":1}", "?q=%7B%22x%22%3A%22%2Fy%22%7D", "http://[::1", "%zz", "//", "a?a", "#a", "a#a", "a:a", "1",
		} {
			set := func(c *Case) { c.Cfg.ExtractValuesRegex = m }
			mk(set, obj("a", q(u), "b", "1"))
			mk(set, obj("a", q(u)), obj("a", `"/other/path?x=1"`), obj("a", q(u)))
			mk(func(c *Case) { set(c); all(c) }, obj("a", q(u), "b", q(u)))
			mk(func(c *Case) { set(c); c.Opts.GetKey = ".a.URL.path.[0]" }, obj("a", q(u)), obj("a", `"/other/path?x=1"`))
		}
	}

	// With other options.
	for n := 0; n < 9; n++ {
		upTo(strs, 2, func(s []string) {
			mk(func(c *Case) {
				c.Opts.ExtractStrings = true

				switch n {
				case 0:
					c.Cfg.IncludeKeys = []string{".a.JSON.p", ".a"}
				case 1:
					c.Opts.GetKey = ".a.JSON.p"
				case 2:
					c.Cfg.KeepJSON = []string{".a.JSON"}
				case 3:
					c.Cfg.ExcludeKeysRegex = []string{`\.JSON$`}
				case 4:
					c.Opts.ReplaceKeys = true
				case 5:
					c.Opts.PG = "/out/o.sql"
				case 6:
					c.Cfg.Transpose = map[string]string{".a.JSON": "j"}
				case 7:
					c.Opts.ChildrenLimit = ptr(1)
				case 8:
					c.Opts.CaseSensitive = true
				}
			}, s...)
		})
	}
}

// --- C24 ---

func gz(parts ...string) string {
	var b bytes.Buffer

	for _, p := range parts {
		w := gzip.NewWriter(&b)
		_, _ = w.Write([]byte(p))
		_ = w.Close()
	}

	return b.String()
}

func zst(parts ...string) string {
	var b bytes.Buffer

	for _, p := range parts {
		w, _ := zstd.NewWriter(&b, zstd.WithEncoderConcurrency(1), zstd.WithZeroFrames(true))
		_, _ = w.Write([]byte(p))
		_ = w.Close()
	}

	return b.String()
}

func casesTransport(g *Gen) {
	contents := []string{
		"{\"a\":1}\n", "{\"a\":1}", "{\"a\":\"x\"}\n\n{\"b\":[1,2]}\r\n{\"a\":null}", `{"a":"` + rep("é", 40) + `"}` + "\n" + `{"b":2}` + "\n",
		"{\"a\":\"" + rep("z", 5000) + "\"}\n{\"b\":\"" + rep("y", 4094) + "\"}\n{}\n", rep("{\"a\":\"q\\\"u\"}\n", 60), "pre {\"a\":1}\n{bad\n{\"c\":true}\n",
	}

	type enc struct {
		ext string
		f   func(s string) string
	}

	encs := []enc{
		{".log", func(s string) string { return s }},
		{".gz", func(s string) string { return gz(s) }},
		{".zst", func(s string) string { return zst(s) }},
		{".gz", func(s string) string { return gz(s[:len(s)/2], s[len(s)/2:]) }},
		{".zst", func(s string) string { return zst(s[:len(s)/3], s[len(s)/3:]) }},
		{".gz", func(s string) string { return gz("", s, "") }},
		{".zst", func(s string) string { return zst("", s, "") }},
	}

	chunks := [][]int{nil, {1}, {2}, {3}, {5}, {7}, {1, 4096}, {4096}, {4095, 1, 2}, {100, 1}}
	outs := []func(c *Case){
		func(c *Case) { c.Opts.CSV = "/out/o.csv" },
		func(c *Case) { c.Opts.CSV = "/out/o.csv.gz"; c.Opts.Raw = "/out/o.raw.zst"; c.Opts.RawDelim = "|" },
		func(c *Case) {
			c.Opts.CSV = "/out/o.csv.zst"
			c.Opts.Raw = "/out/o.raw.gz"
			c.Opts.PG = "/out/o.sql.gz"
		},
		func(c *Case) { c.Opts.PG = "/out/o.sql.zst" },
	}

	for _, ct := range contents {
		for _, e := range encs {
			for _, ch := range chunks {
				for i, o := range outs {
					if i > 0 && len(ch) > 1 && !g.thorough {
						continue
					}

					g.add(func() *Case {
						c := &Case{Files: []File{{"/in/a" + e.ext, e.f(ct)}}, Chunk: ch}
						o(c)

						return c.set("plain:/in/a"+e.ext, ct)
					})
				}

				g.add(func() *Case {
					c := &Case{Files: []File{{"/in/a" + e.ext, e.f(ct)}}, Chunk: ch}
					c.Opts.CSV = "/out/o.csv"
					c.Cfg.IncludeKeys = []string{".a", ".b.[1]"}

					return c.set("plain:/in/a"+e.ext, ct)
				})
			}
		}
	}

	// Every short text under every small read size.
	upTo([]string{`{"a":1}`, `{"b":"x"}`, ``, `{}`}, 3, func(s []string) {
		for ch := 1; ch <= 8; ch++ {
			for _, end := range []string{"", "\n", "\r\n"} {
				d := strings.Join(s, "\n") + end
				if d == "" {
					continue
				}

				g.add(func() *Case {
					c := csvCase(d)
					c.Chunk = []int{ch}

					return c
				})
			}
		}
	})

	// Several inputs in several encodings.
	for _, e := range encs {
		for _, f := range encs {
			g.add(func() *Case {
				c := &Case{Files: []File{{"/in/a" + e.ext, e.f(contents[0])}, {"/in/b" + f.ext, f.f(contents[2])}}}
				c.Opts.CSV = "/out/o.csv"
				c.Opts.AddSequence = true

				return c.set("plain:/in/a"+e.ext, contents[0]).set("plain:/in/b"+f.ext, contents[2])
			})
		}
	}

	// Names.
	plain := func(s string) string { return s }
	gz1 := func(s string) string { return gz(s) }
	zst1 := func(s string) string { return zst(s) }
	names := map[string]func(string) string{
		"a.gz.log": plain, "a.zst.log": plain, "gz": plain, "zst": plain, "agz": plain, "a.gzip": plain, "a.zst1": plain, "a.gz1": plain, "a.gz_": plain,
		"a.zst.gz": gz1, "a.gz.zst": zst1, "a.gz.gz": gz1, "a.jsonl.gz": gz1, "a.csv.zst": zst1, ".gz": gz1, ".zst": zst1, "a.b.c": plain, "a": plain, "gz.a": plain,
		"a b.gz": gz1, "é.zst": zst1, "a.json": plain, "zst.gz.log": plain,
	}

	for _, in1 := range sortedKeys(names) {
		for _, o := range outs[:2] {
			g.add(func() *Case {
				c := &Case{Files: []File{{"/in/" + in1, names[in1](contents[2])}}}
				o(c)

				return c.set("plain:/in/"+in1, contents[2])
			})
		}

		g.add(func() *Case {
			c := in(contents[2])
			c.Opts.CSV, c.Opts.Raw, c.Opts.PG = "/out/1"+in1, "/out/2"+in1, "/out/3"+in1
			c.Opts.RawDelim = "|"

			return c
		})
		g.add(func() *Case {
			c := in(contents[2])
			c.Opts.CSV, c.Opts.Raw, c.Opts.PG = "/out/1"+in1, "/out/2"+in1, "/out/3"+in1
			c.Opts.RawDelim = "|"
			c.Cfg.Transpose = map[string]string{".b": "t"}

			return c
		})
	}

	// Buffer sizes: the longest line fits.
	for bs := 100; bs <= 130; bs++ {
		for n := 60; n < bs-10; n += 7 {
			g.add(func() *Case {
				c := csvCase(obj("a", `"`+rep("x", n)+`"`) + "\n" + obj("b", "1") + "\n" + obj("a", `"`+rep("y", n)+`"`))
				c.Opts.BufSize = bs

				return c
			})
		}
	}

	// Outputs larger than any buffer on the way.
	for _, n := range []int{30, 300, 3000} {
		for i, o := range outs {
			g.add(func() *Case {
				var sb strings.Builder
				for j := 0; j < n; j++ {
					fmt.Fprintf(&sb, "{\"a\":\"%x\",\"b\":%d}\n", uint64(j)*0x9e3779b97f4a7c15, j)
				}

				c := in(sb.String())
				c.MaxStep = 1 << 30
				o(c)

				_ = i

				return c
			})
		}
	}
}
