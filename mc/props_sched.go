package main

import (
	"strings"

	"github.com/vearutop/flatjsonl/zzverif/vos"
)

const schedNote = "scheduling points at every synchronisation operation (mutex, wait group, channel, atomic, concurrent map, timer); data races are decided separately by C03; worker counts, line counts and preemption bounds as enumerated"

func init() {
	register(&Prop{
		ID: "C01", Level: "model_checking",
		Rule:  "an execution is one complete run of the real program under one schedule of the flattening pass; every row of every output is compared with the reference table",
		Note:  schedNote,
		Cases: casesRows, Check: std(cmpOpt{}),
	})
	register(&Prop{
		ID: "C02", Level: "model_checking",
		Rule:  "an execution is one complete run of the real program under one schedule of the key scanning pass; columns, their types and every cell are compared with the reference",
		Note:  schedNote,
		Cases: casesDiscovery, Check: std(cmpOpt{anyOrder: true, fold: true}),
	})
	register(&Prop{
		ID: "C04", Level: "model_checking",
		Rule:  "an execution is one complete run under one schedule and one sequence of memory readings or faults; it has to end: no deadlock, no livelock, no crash",
		Note:  schedNote + "; memory readings are an environment choice at every poll",
		Cases: casesEnd, Check: checkEnd,
	})
}

// scenario is a small input with the feature it is about.
type scenario struct {
	name  string
	lines []string
	setup func(c *Case)
}

// rowScenarios exercise every piece of state that lines share.
func rowScenarios() []scenario {
	return []scenario{
		{"plain", []string{`{"a":1,"b":"x"}`, `{"a":2}`, `{"b":"y"}`, `{"a":4,"b":"z"}`}, func(c *Case) {}},
		{"nested", []string{`{"a":{"b":[1,{"c":"x"}]}}`, `{"a":{"b":[2,{"c":"y"}]}}`, `{"a":{"d":3}}`, `{"d":"w"}`}, func(c *Case) {}},
		{"sequence", []string{`{"a":1}`, `{}`, `{"a":3}`, `{"b":4}`}, func(c *Case) { c.Opts.AddSequence = true }},
		{"raw", []string{`{"a":"p","b":"q"}`, `{"a":"rr"}`, `{"b":"s"}`, `{"a":"t","b":"u"}`}, func(c *Case) {
			c.Opts.CSV = ""
			c.Opts.Raw = "/out/o.raw"
			c.Opts.RawDelim = ";"
		}},
		{"pg", []string{`{"a":1,"b":"p"}`, `{"b":"q"}`, `{"a":3}`, `{}`}, func(c *Case) {
			c.Opts.CSV = ""
			c.Opts.PG = "/out/o.sql"
		}},
		{"pg-parts", []string{`{"a":1,"b":"p","c":true}`, `{"b":"q","d":1}`, `{"c":false}`}, func(c *Case) {
			c.Opts.CSV = ""
			c.Opts.PG = "/out/o.sql"
			c.Opts.SQLMaxCols = 2
		}},
		{"csv+raw", []string{`{"a":"p","b":"q"}`, `{"a":"rr"}`, `{"b":"s"}`}, func(c *Case) {
			c.Opts.Raw = "/out/o.raw"
			c.Opts.RawDelim = ";"
		}},
		{"transpose", []string{`{"t":{"x":1,"y":2},"a":1}`, `{"t":{"x":3},"a":2}`, `{"a":3}`, `{"t":{"y":4}}`}, func(c *Case) {
			c.Cfg.Transpose = map[string]string{".t": "tt"}
		}},
		{"transpose-2", []string{`{"t":[{"k":1},{"k":2,"l":"m"}],"u":{"p":"q"}}`, `{"t":[{"k":3}],"u":{"p":"r","o":"s"}}`}, func(c *Case) {
			c.Cfg.Transpose = map[string]string{".t": "tt", ".u": "uu"}
		}},
		{"transpose-pg", []string{`{"t":{"x":1,"y":2},"a":1}`, `{"t":{"x":3},"a":2}`, `{"a":3}`}, func(c *Case) {
			c.Cfg.Transpose = map[string]string{".t": "tt"}
			c.Opts.CSV = ""
			c.Opts.PG = "/out/o.sql"
		}},
		{"coalesce", []string{`{"a":1,"b":2}`, `{"b":3}`, `{"a":null,"b":4}`, `{"a":5}`}, func(c *Case) {
			c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
		}},
		{"concat", []string{`{"a":"p","b":"q"}`, `{"b":"r"}`, `{"a":"s","b":"t"}`}, func(c *Case) {
			c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
			c.Cfg.ConcatDelimiter = ptr("::")
		}},
		{"const", []string{`{"a":"p"}`, `{}`, `{"a":"q"}`}, func(c *Case) {
			c.Cfg.IncludeKeys = []string{".a", "const:k", ".b"}
		}},
		{"single", []string{`{"a":"p","b":1}`, `{"b":2}`, `{"a":"q"}`, `{"a":{"b":1}}`}, func(c *Case) {
			c.Opts.GetKey = ".a"
		}},
		{"single-deep", []string{`{"a":{"b":"p"}}`, `{"a":{"b":"qq"},"c":1}`, `{"a":{"b":"r"}}`, `{"a":1}`}, func(c *Case) {
			c.Opts.GetKey = ".a.b"
		}},
		{"single-raw", []string{`{"a":{"b":"p"}}`, `{"a":{"b":"qq"},"c":1}`, `{"a":{"b":"r"}}`}, func(c *Case) {
			c.Opts.GetKey = ".a.b"
			c.Opts.CSV = ""
			c.Opts.Raw = "/out/o.raw"
		}},
		{"types", []string{`{"a":1,"b":null}`, `{"a":"x","b":true}`, `{"a":1.5,"b":2}`, `{"a":null,"b":"q"}`, `{"a":true,"b":2.5}`, `{"a":"y","b":3}`, `{"a":2,"b":4}`}, func(c *Case) {}},
		{"types-coalesce", []string{`{"a":1}`, `{"b":"x"}`, `{"a":null,"b":true}`, `{"a":1.5}`}, func(c *Case) {
			c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
			c.Opts.CSV = ""
			c.Opts.PG = "/out/o.sql"
		}},
		{"single-object", []string{`{"a":{"b":1,"c":[2]}}`, `{"a":{"c":["x",{}],"b":"z"}}`, `{"a":[1,[2]]}`, `{"a":{"bb":{"c":3}}}`}, func(c *Case) {
			c.Opts.GetKey = ".a"
		}},
		{"single-extract", []string{`{"a":"{\"b\":1}"}`, `{"a":"[2]"}`, `{"a":"http://h"}`}, func(c *Case) {
			c.Opts.GetKey = ".a"
			c.Opts.ExtractStrings = true
		}},
		{"include", []string{`{"a":1,"b":{"c":"x"}}`, `{"b":{"c":"y","d":1}}`, `{"a":3}`}, func(c *Case) {
			c.Cfg.IncludeKeys = []string{".b.c", ".a"}
		}},
		{"include-regex", []string{`{"a":1,"b":{"c":"x"}}`, `{"b":{"c":"y","d":1}}`, `{"a":3}`}, func(c *Case) {
			c.Cfg.IncludeKeysRegex = []string{".b.*"}
		}},
		{"zero", []string{`{"a":0,"b":""}`, `{"a":1,"b":false}`, `{"a":0}`}, func(c *Case) { c.Opts.SkipZeroCols = true }},
		{"limit-deep", []string{`{"a":{"x":1,"y":{"p":1,"q":2}}}`, `{"a":{"z":1,"y":{"r":3}}}`, `{"a":{"x":2}}`}, func(c *Case) {
			c.Opts.ChildrenLimit = ptr(2)
		}},
		{"reports", []string{`{"a":1,"b":{"c":"x"}}`, `{"b":[{"c":"y"}]}`, `{"a":"s"}`}, func(c *Case) {
			c.Opts.ShowFlat, c.Opts.ShowHier, c.Opts.ShowInfo, c.Opts.ShowSchema = true, true, true, true
		}},
		{"prefix", []string{`aa 1 {"a":1}`, `bb 2 {"a":2}`, `cc {"a":3}`, `{"a":4}`}, func(c *Case) {
			c.Opts.MatchLinePrefix = `^([a-z]+) (\d)`
		}},
		{"extract", []string{`{"a":"{\"x\":1}"}`, `{"a":"[2,3]"}`, `{"a":"s"}`}, func(c *Case) { c.Opts.ExtractStrings = true }},
		{"url", []string{`{"a":"http://h/p?q=1"}`, `{"a":"http://i/r?q=2"}`}, func(c *Case) {
			c.Cfg.ExtractValuesRegex = map[string]string{".a": "URL"}
		}},
		{"keepjson", []string{`{"a":{"x":1},"b":1}`, `{"a":{"y":[2]},"b":2}`, `{"a":[1],"b":3}`}, func(c *Case) {
			c.Cfg.KeepJSON = []string{".a"}
		}},
		{"cardinality", []string{`{"a":{"x":1,"y":2},"b":1}`, `{"a":{"z":3}}`, `{"b":2}`}, func(c *Case) {
			c.Opts.ChildrenLimit = ptr(2)
		}},
		{"limit", []string{`{"a":"pppppp"}`, `{"a":"qq"}`, `{"a":"rrrrrrrr"}`}, func(c *Case) { c.Opts.FieldLimit = 3 }},
		{"time", []string{`{"a":"2020-01-02"}`, `{"a":"2021-03-04"}`, `{"a":"zz"}`}, func(c *Case) {
			c.Cfg.ParseTime = map[string]string{".a": "2006-01-02"}
			c.Cfg.OutputTimeFormat = "02/01/2006"
		}},
		{"replace", []string{`{"aB":{"cD":1}}`, `{"aB":{"cD":2},"x":{"cD":3}}`}, func(c *Case) { c.Opts.ReplaceKeys = true }},
		{"offset", []string{`{"a":1}`, `{"a":2}`, `{"a":3}`, `{"a":4}`}, func(c *Case) {
			c.Opts.OffsetLines = 1
			c.Opts.MaxLines = 2
			c.Opts.AddSequence = true
		}},
		{"malformed", []string{`{"a":1}`, `{"a":`, `text`, `{"a":4}`}, func(c *Case) { c.set("lenient", "1") }},
		{"empty", []string{`{"a":1}`, ``, `x`, `{"a":4}`}, func(c *Case) {}},
		{"case", []string{`{"a":1}`, `{"A":2}`, `{"a":3}`}, func(c *Case) {}},
		{"texts", []string{obj("a", long("p", 1100)), obj("a", long("q", 1100)), obj("a", long("r", 1100)), obj("a", long("s", 700))}, func(c *Case) {}},
		{"texts-kept", []string{obj("a", obj("x", long("p", 6000))), obj("a", obj("y", long("q", 6000))), obj("a", "["+long("r", 600)+"]")}, func(c *Case) {
			c.Cfg.KeepJSON = []string{".a"}
		}},
		{"texts-extract", []string{obj("a", `"{\"x\":\"`+strings.Repeat("p", 900)+`\"}"`), obj("a", `"{\"x\":\"`+strings.Repeat("q", 900)+`\"}"`), obj("a", `"[\"`+strings.Repeat("r", 900)+`\"]"`)}, func(c *Case) {
			c.Opts.ExtractStrings = true
		}},
		{"texts-escaped", []string{obj("a", `"\u0041\n`+strings.Repeat("p", 600)+`"`), obj("a", `"\u0042\t`+strings.Repeat("q", 600)+`"`), obj("a", `"\u0043\"`+strings.Repeat("r", 600)+`"`)}, func(c *Case) {}},
		{"texts-prefix", []string{strings.Repeat("p", 600) + ` {"a":1}`, strings.Repeat("q", 600) + ` {"a":2}`, strings.Repeat("r", 600) + ` {"a":3}`}, func(c *Case) {
			c.Opts.MatchLinePrefix = `^([a-z]+) `
		}},
		{"numbers", []string{obj("a", strings.Repeat("1", 300)), obj("a", "0."+strings.Repeat("2", 600)), obj("a", strings.Repeat("3", 250)+"e-5")}, func(c *Case) {}},
		{"names", []string{obj(strings.Repeat("k", 3000), obj(strings.Repeat("l", 3000), "1")), obj(strings.Repeat("k", 3000), obj(strings.Repeat("m", 3000), "2")), obj(strings.Repeat("k", 3000), obj(strings.Repeat("l", 3000), "3"))}, func(c *Case) {}},
		{"depth", []string{deep(25, "1"), deep(25, "2"), deep(24, "3")}, func(c *Case) {}},
	}
}

// long is a text.
func long(s string, n int) string { return `"` + strings.Repeat(s, n) + `"` }

// deep is a document of nested objects and arrays.
func deep(n int, v string) string {
	for i := n; i > 0; i-- {
		if i%3 == 0 {
			v = "[" + v + ",null]"
		} else {
			v = obj("d"+num(i), v)
		}
	}

	return obj("d", v, "e", "1")
}

func (s scenario) build(n int) *Case {
	if n > len(s.lines) {
		n = len(s.lines)
	}

	c := csvCase(lines(s.lines[:n]...))
	c.Opts.Concurrency = 2
	c.Tag = s.name
	s.setup(c)

	return c
}

// bufFor is a buffer that takes the longest line and little more.
func bufFor(c *Case) int {
	n := 30

	for _, l := range strings.Split(c.Files[0].Data, "\n") {
		if len(l)+2 > n {
			n = len(l) + 2
		}
	}

	return n
}

func twoInputs(c *Case) *Case {
	ls := strings.SplitAfter(strings.TrimSuffix(c.Files[0].Data, "\n"), "\n")
	h := len(ls) / 2
	c.Files = []File{{"/in/a.log", strings.Join(ls[:h], "")}, {"/in/b.log", strings.Join(ls[h:], "") + "\n"}}

	return c
}

func casesRows(g *Gen) { schedules(g, 2) }

func casesDiscovery(g *Gen) {
	// Two workers extend the type of a key that a third line has created.
	kinds := []string{"0", "1.5", "true", `"x"`, "null", "{}", "[]"}
	if g.thorough {
		kinds = append(kinds, "2", `""`, "false", `{"b":1}`, "[1]")
	}

	seqs(kinds, 3, func(k []string) {
		for _, v := range []string{"", "zero"} {
			g.add(func() *Case {
				c := csvCase(lines(obj("z", "1", "a", k[0]), obj("a", k[1]), obj("a", k[2])))
				c.Opts.PG = "/out/o.sql"
				c.Opts.Concurrency = 2
				c.Opts.SkipZeroCols = v == "zero"
				c.Mode, c.Window, c.Bound = "db", 1, 1

				if g.thorough {
					c.Mode = "pb"
				}

				c.Tag = "kinds" + v

				return c
			})
		}
	})

	// Keys that meet in one column.
	seqs(kinds[:5], 3, func(k []string) {
		for _, v := range []string{"case", "coalesce", "transpose"} {
			g.add(func() *Case {
				c := csvCase(lines(obj("a", k[0]), obj("A", k[1]), obj("a", k[2])))

				switch v {
				case "coalesce":
					c = csvCase(lines(obj("a", k[0]), obj("b", k[1]), obj("a", k[2])))
					c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
				case "transpose":
					c = csvCase(lines(`{"a":[`+k[0]+`]}`, `{"a":[`+k[1]+`]}`, `{"a":[`+k[2]+`]}`))
					c.Cfg.Transpose = map[string]string{".a": "tt"}
				}

				c.Opts.PG = "/out/o.sql"
				c.Opts.Concurrency = 2
				c.Mode, c.Window, c.Bound = "db", 1, 1

				if g.thorough {
					c.Mode = "pb"
				}

				c.Tag = v

				return c
			})
		}
	})

	schedules(g, 1)
}

// heavy scenarios have too many scanning schedules for the quick tier.
var heavyScan = map[string]bool{"strings-nested": true, "strings-urls": true, "depth": true, "nested": true, "transpose-2": true, "url": true}

func schedules(g *Gen, window int) {
	for _, s := range rowScenarios() {
		g.add(func() *Case {
			c := s.build(2)
			c.Mode, c.Window = "dpor", window

			if window == 1 && heavyScan[s.name] && !g.thorough {
				c.Mode, c.Bound = "pb", 1
			}

			return c
		})

		if window == 2 {
			g.add(func() *Case {
				c := s.build(3)
				c.Mode, c.Window = "dpor", window

				return c
			})
		}

		for _, conc := range []int{2, 3} {
			for n := 2; n <= min(len(s.lines), 4); n++ {
				if window == 1 && !g.thorough && n*conc > 6 {
					continue
				}

				g.add(func() *Case {
					c := s.build(n)
					c.Opts.Concurrency = conc
					c.Mode, c.Window, c.Bound = "pb", window, 1

					return c
				})
			}
		}
	}

	// The buffer of the scanner is overwritten while lines are being processed.
	for _, s := range rowScenarios() {
		g.add(func() *Case {
			c := s.build(len(s.lines))
			c.Opts.BufSize = bufFor(c)
			c.Chunk = []int{13}
			c.Mode, c.Window, c.Bound = "db", window, 1

			return c
		})

		// The environment answers reads with line-sized pieces.
		g.add(func() *Case {
			c := twoInputs(s.build(len(s.lines)))
			c.Mode, c.Window, c.Bound = "db", window, 1

			return c
		})
	}

	// Scheduling points also after operations that let others go on.
	for _, s := range rowScenarios() {
		g.add(func() *Case {
			c := s.build(2)
			c.Fine = true
			c.Mode, c.Window, c.Bound = "pb", window, 1

			return c
		})

		// A worker may be overtaken before each statement.
		g.add(func() *Case {
			c := s.build(2)
			c.Stmts = true
			c.Mode, c.Window, c.Bound = "db", window, 1

			if g.thorough {
				c = s.build(3)
				c.Opts.Concurrency = 3
				c.Stmts = true
				c.Mode, c.Window, c.Bound = "db", window, 1
			}

			return c
		})
	}

	// Workers are used again and again; parsers and row buffers are renewed.
	for _, n := range []int{130, 250} {
		for _, conc := range []int{2, 3, 4, 8} {
			g.add(func() *Case {
				var ls []string

				for i := 0; i < n; i++ {
					switch i % 5 {
					case 0:
						ls = append(ls, obj("a", num(i), "b", `"s`+num(i)+`"`))
					case 1:
						ls = append(ls, obj("b", `"t`+num(i)+`"`))
					case 2:
						ls = append(ls, `{}`)
					case 3:
						ls = append(ls, obj("c", "["+num(i)+`,{"d":`+num(i)+`}]`))
					default:
						ls = append(ls, obj("c", "[null,{}]", "a", "true"))
					}
				}

				c := csvCase(lines(ls...))
				c.Opts.Concurrency = conc
				c.Opts.AddSequence = true
				c.Tag = "long"

				if g.thorough {
					c.Mode, c.Window, c.Bound = "db", window, 1
				}

				return c
			})
		}
	}

	if !g.thorough {
		return
	}

	for _, s := range rowScenarios() {
		for _, conc := range []int{2, 3} {
			for n := 2; n <= min(len(s.lines), 4); n++ {
				g.add(func() *Case {
					c := s.build(n)
					c.Opts.Concurrency = conc
					c.Mode, c.Window, c.Bound = "pb", window, 2

					if n > 3 {
						c.Mode = "db"
					}

					return c
				})
			}
		}

		g.add(func() *Case {
			c := s.build(len(s.lines))
			c.Mode, c.Window = "dpor", window
			c.Max = 150000

			return c
		})
		g.add(func() *Case {
			c := s.build(2)
			c.Fine = true
			c.Mode, c.Window, c.Bound = "pb", window, 2

			return c
		})
	}
}

func casesEnd(g *Gen) {
	// Memory over the limit, at every poll or not.
	for _, s := range rowScenarios() {
		for _, h := range []string{"y", "yn", "yyn", "ny", "nyn", "yyyyyyn", "???"} {
			for n := 2; n <= 3; n++ {
				if n == 3 && !g.thorough {
					continue
				}

				g.add(func() *Case {
					c := s.build(n)
					c.Opts.MemLimit = 1
					c.Heap = h
					c.Mode, c.Bound = "db", 1
					c.Early = h != "y"

					if strings.HasPrefix(h, "?") {
						c.Heap = "??????n"
						c.Mode = "env"
						c.Early = false
					}

					return c
				})
			}
		}
	}

	// Lines that fail in every way, under every schedule.
	bad := []string{`{"a":1}`, `{"a":`, `text`, `{"a":1e999}`, ``, `{"a":-}`, "[1]", `{"a":{"b":[tru]}}`}

	upTo(bad, 2, func(l []string) {
		for _, v := range []string{"", "prefix", "sequence", "single", "transpose", "nooutput"} {
			g.add(func() *Case {
				c := csvCase(lines(append(l, `{"a":2}`)...))
				c.Opts.Concurrency = 2
				c.Mode, c.Bound = "db", 1

				switch v {
				case "prefix":
					c.Opts.MatchLinePrefix = `(\w+)`
				case "sequence":
					c.Opts.AddSequence = true
				case "single":
					c.Opts.GetKey = ".a"
				case "transpose":
					c.Cfg.Transpose = map[string]string{".a": "tt"}
				case "nooutput":
					c.Opts.CSV = ""
					c.Opts.ShowFlat = true
				}

				return c
			})
		}
	})

	// Failing environment, under every schedule with one departure.
	for _, s := range rowScenarios() {
		for _, f := range []vos.Fault{
			{Path: "/in/a.log", Op: "read", Nth: 1}, {Path: "/in/a.log", Op: "read", Nth: 2}, {Path: "/in/a.log", Op: "read", Nth: 3},
			{Path: "/in/a.log", Op: "read", Nth: 4}, {Path: "/in/a.log", Op: "open", Nth: 1}, {Path: "/in/a.log", Op: "open", Nth: 2},
			{Path: "/out/o.", Op: "write", Nth: 1, Sticky: true}, {Path: "/out/o.", Op: "write", Nth: 2}, {Path: "/out/o.", Op: "create", Nth: 1},
			{Path: "/out/o.", Op: "close", Nth: 1},
		} {
			g.add(func() *Case {
				c := s.build(len(s.lines))
				c.Chunk = []int{11}
				c.Faults = []vos.Fault{f}

				if strings.HasPrefix(f.Path, "/out/") {
					csv, raw, _, pg := c.Opts.outputs()
					c.Faults[0].Path = csv + raw + pg

					if csv != "" {
						c.Faults[0].Path = csv
					}
				}

				c.Mode, c.Bound = "db", 1

				return c
			})
		}
	}

	// Rows that can not be written while others are in flight.
	for _, n := range []int{1, 2, 3, 5} {
		for nth := 1; nth <= n; nth++ {
			for _, conc := range []int{1, 2, 3} {
				g.add(func() *Case {
					var ls []string
					for i := 0; i < n; i++ {
						ls = append(ls, obj("a", `"`+rep("x", 3000)+`"`))
					}

					c := csvCase(lines(ls...))
					c.Opts.Concurrency = conc
					c.Faults = []vos.Fault{{Path: "/out/o.csv", Op: "write", Nth: nth, Sticky: true}}
					c.Mode, c.Bound = "db", 1

					return c
				})
			}
		}
	}
}

// endLimit is the virtual time a small run may take.
func checkEnd(x *Ctx, o *Obs) string {
	if o.ok() || o.failed() {
		return ""
	}

	return "the run did not come to an orderly end: " + o.status() + logTail(o)
}

// --- data races ---

func init() {
	register(&Prop{
		ID: "C03", Level: "model_checking", Race: true,
		Rule:  "an execution is one complete run under one schedule in a build with the race detector, which sees only the synchronisation of the program itself",
		Note:  schedNote + "; the race detector reports unordered conflicting accesses of the explored executions",
		Cases: casesRaces, Check: checkRaces,
	})
}

func checkRaces(x *Ctx, o *Obs) string {
	if o.Races > 0 {
		return "data race (run replay to see the accesses)"
	}

	if !o.ok() {
		return "the run ended with " + o.status() + logTail(o)
	}

	return ""
}

func casesRaces(g *Gen) {
	for _, s := range rowScenarios() {
		for _, conc := range []int{2, 3} {
			g.add(func() *Case {
				c := s.build(len(s.lines))
				c.Opts.Concurrency = conc

				return c
			})
			g.add(func() *Case {
				c := s.build(len(s.lines))
				c.Opts.Concurrency = conc

				if conc == 2 || g.thorough {
					c.Mode, c.Bound = "db", 1
				}

				return c
			})
		}

		g.add(func() *Case {
			c := s.build(2)
			c.Mode, c.Bound = "db", 1
			c.Fine = true

			if g.thorough {
				c.Mode = "pb"
			}

			return c
		})
		g.add(func() *Case {
			c := s.build(2)
			c.Mode, c.Bound = "db", 1
			c.Stmts = true

			return c
		})
		g.add(func() *Case {
			c := s.build(len(s.lines))
			c.Opts.MemLimit = 1
			c.Heap = "yn"
			c.Early = true
			c.Opts.Verbosity = 3
			c.Opts.AddSequence = true

			if g.thorough {
				c.Mode, c.Bound = "db", 1
			}

			return c
		})
		g.add(func() *Case {
			c := s.build(len(s.lines))
			c.Opts.BufSize = bufFor(c)
			c.Chunk = []int{13}
			c.Mode, c.Bound = "db", 1

			return c
		})

		if g.thorough {
			g.add(func() *Case {
				c := s.build(2)
				c.Mode, c.Window = "dpor", 2

				return c
			})
			g.add(func() *Case {
				c := s.build(len(s.lines))
				c.Opts.Concurrency = 3
				c.Mode, c.Bound = "pb", 1

				return c
			})
		}
	}

	// Two processors at once.
	for _, s := range twoSettings() {
		g.add(func() *Case {
			c := csvCase(lines(settingLines...))
			c.Entry = "lib"
			c.Opts.Raw, c.Opts.PG = "/out/o.raw", "/out/o.sql"
			c.Opts.Concurrency = 2
			s[0](c)

			c.Lib = &Lib{Readers: "r", Together: true, Second: another(settingLines, 2, func(d *Case) {
				d.Opts.CSV, d.Opts.Raw, d.Opts.PG = "/out/o.csv", "/out/o.raw", "/out/o.sql"
				s[1](d)
			})}

			return c
		})
	}

	for _, s := range sharedConfigs(rowScenarios()) {
		g.add(func() *Case {
			c := csvCase(lines(s.lines...))
			c.Entry = "lib"
			c.Opts.Concurrency = 2
			s.setup(c)
			s.first(c)

			c.Lib = &Lib{Readers: "r", Shared: true, Together: true, Second: another(s.other, 2, func(d *Case) {
				d.Opts.CSV = "/out/o.csv"
				s.setup(d)
				s.second(d)
			})}

			return c
		})
	}
}
