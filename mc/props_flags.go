package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"
)

func init() {
	register(&Prop{
		ID: "C35", Level: "exploration",
		Rule:  "a case is one complete run without a flag, or with a flag given its documented default; everything it leaves is compared with the reference and with the run with all defaults given",
		Note:  inputNote + "; readings of memory are those of the harness, the progress interval is not observed",
		Cases: casesFlags, Check: checkFlags,
	})
}

// Documented defaults, as README.md lists them.
var flagDefaults = [][2]string{
	{"add-sequence", "=false"},
	{"buf-size", "10000000"},
	{"case-sensitive-keys", "=false"},
	{"children-limit", "100"},
	{"config", ""},
	{"csv", ""},
	{"dbg-cpu-prof", ""},
	{"dbg-loop-input-size", "0"},
	{"dbg-mem-prof", ""},
	{"extract-strings", "=false"},
	{"field-limit", "0"},
	{"get-key", ""},
	{"input", ""},
	{"key-limit", "0"},
	{"match-line-prefix", ""},
	{"max-lines", "0"},
	{"max-lines-keys", "0"},
	{"mem-limit", "1000"},
	{"offset-lines", "0"},
	{"output", ""},
	{"pg-dump", ""},
	{"progress-interval", "5s"},
	{"raw", ""},
	{"raw-delim", ""},
	{"replace-keys", "=false"},
	{"show-json-schema", "=false"},
	{"show-keys-flat", "=false"},
	{"show-keys-hier", "=false"},
	{"show-keys-info", "=false"},
	{"skip-zero-cols", "=false"},
	{"sql-max-cols", "500"},
	{"sql-table", "flatjsonl"},
	{"sqlite", ""},
	{"verbosity", "1"},
	{"version", "=false"},
}

// speeds are the parts of the status that depend on the clock and the memory.
var speeds = regexp.MustCompile(`\S+ ?(l/s|MB/s|MB|ms|µs|s)\b`)

func flagArgs(d [2]string) []string {
	if strings.HasPrefix(d[1], "=") {
		return []string{"-" + d[0] + d[1]}
	}

	return []string{"-" + d[0], d[1]}
}

// givesFlag tells whether a case has the flag already.
func givesFlag(c *Case, arg string) bool {
	n := strings.SplitN(arg, "=", 2)[0]

	for _, a := range c.args() {
		if strings.SplitN(a, "=", 2)[0] == n {
			return true
		}
	}

	return false
}

// flagBase makes a case of flags left out; one worker keeps columns in one order.
func flagBase(data string) *Case {
	c := csvCase(data)
	c.Opts.Bare = true
	c.Opts.Args = []string{"-concurrency", "1"}
	c.Opts.Verbosity = 1

	return c
}

// wide is an object of n keys.
func wide(n int, from int) string {
	var kv []string
	for i := from; i < from+n; i++ {
		kv = append(kv, fmt.Sprintf("k%d", i), num(i))
	}

	return obj(kv...)
}

func casesFlags(g *Gen) {
	docs := []string{
		lines(`{"a":1,"A":"x","o":{"p":[1,{"q":null}],"u":"http://h/p?x=1#f"}}`, `{"a":2.5,"j":"{\"z\":[1]}","t":"2024-01-02"}`, `bad`, `{"b":"`+rep("y", 70000)+`"}`),
		lines(wide(101, 0), obj("m", wide(101, 7)), obj("l", "["+strings.TrimSuffix(rep("1,", 103), ",")+"]")),
		lines(wide(501, 0)),
		lines(obj("t", wide(3, 1), "x", "1"), `{"t":{"k1":"s"}}`),
	}

	// What a flag may interfere with.
	sets := []option{
		{"plain", func(c *Case) {}},
		{"all", func(c *Case) { c.allOut() }},
		{"gz", func(c *Case) { c.Opts.CSV = "/out/o.csv.gz" }},
		{"output", func(c *Case) { c.Opts.CSV = ""; c.Opts.Output = "/out/o.csv,/out/o.sql,/out/o.raw,/out/o.sqlite" }},
		{"no output", func(c *Case) { c.Opts.CSV = "" }},
		{"replace", func(c *Case) { c.Opts.ReplaceKeys = true }},
		{"extract", func(c *Case) { c.Opts.ExtractStrings = true }},
		{"sequence", func(c *Case) { c.Opts.AddSequence = true }},
		{"case", func(c *Case) { c.Opts.CaseSensitive = true }},
		{"skip", func(c *Case) { c.Opts.SkipZeroCols = true }},
		{"prefix", func(c *Case) { c.Opts.MatchLinePrefix = `(b)` }},
		{"lines", func(c *Case) { c.Opts.MaxLines, c.Opts.OffsetLines = 2, 1 }},
		{"keys", func(c *Case) { c.Opts.MaxLinesKeys = 4 }},
		{"field", func(c *Case) { c.Opts.FieldLimit = 4 }},
		{"get", func(c *Case) { c.Opts.GetKey = ".a" }},
		{"table", func(c *Case) { c.Opts.PG, c.Opts.SQLTable, c.Opts.SQLMaxCols = "/out/o.sql", "tab", 3 }},
		{"transpose", func(c *Case) { c.allOut(); c.Cfg.Transpose = map[string]string{".t": "tt"} }},
		{"flat", func(c *Case) { c.Opts.CSV = ""; c.Opts.ShowFlat = true }},
		{"hier", func(c *Case) { c.Opts.CSV = ""; c.Opts.ShowHier = true }},
		{"info", func(c *Case) { c.Opts.CSV = ""; c.Opts.ShowInfo = true }},
		{"schema", func(c *Case) { c.Opts.CSV = ""; c.Opts.ShowSchema = true }},
		{"positional", func(c *Case) { c.Opts.Positional = 1 }},
		{"no input", func(c *Case) { c.Opts.NoInput = true }},
	}

	for _, doc := range docs {
		for _, set := range sets {
			mk := func(tag string, args ...string) {
				// Given last, a flag overrides what the case sets: leave that alone.
				t := flagBase(doc)
				set.f(t)

				if len(args) > 0 && givesFlag(t, args[0]) {
					return
				}

				g.add(func() *Case {
					c := flagBase(doc)
					set.f(c)
					c.Opts.Args = append(c.Opts.Args, args...)
					c.Tag = set.name + " " + tag

					return c
				})
			}

			mk("none")

			for _, d := range flagDefaults {
				mk(d[0], flagArgs(d)...)
			}
		}
	}

	// Boundaries of the defaults.
	for _, n := range []int{498, 499, 500, 501, 502, 999, 1000, 1001, 1500} {
		for k := 0; k < 3; k++ {
			g.add(func() *Case {
				c := flagBase(lines(wide(n, 0), wide(n, 0)))
				c.Opts.CSV = ""

				if k == 0 {
					c.Opts.PG = "/out/o.sql"
				} else {
					c.Opts.SQLite = "/out/o.sqlite"
				}

				if k == 2 {
					c.Opts.AddSequence = true
				}

				c.Tag = "columns"

				return c
			})
		}
	}

	for _, n := range []int{99, 100, 101, 102} {
		for k := 0; k < 6; k++ {
			g.add(func() *Case {
				arr := "[" + strings.TrimSuffix(rep("1,", n), ",") + "]"
				c := flagBase(lines([]string{
					obj("o", wide(n, 0)),
					obj("l", arr),
					wide(n, 0),
					obj("o", obj("p", wide(n, 0), "q", "1")),
					obj("o", wide(n-1, 0)) + "\n" + obj("o", wide(1, n)),
					obj("o", arr, "p", wide(n, 0)),
				}[k]))
				c.Tag = "children"

				return c
			})
		}
	}

	for _, n := range []int{9999000, 9999999, 10000000, 10000001} {
		for k := 0; k < 2; k++ {
			g.add(func() *Case {
				c := flagBase(`{"s":"` + rep("z", n-8) + `"}` + "\n" + `{"s":1}` + "\n")
				c.Tag = "buffer"

				if k == 1 {
					c.Opts.Args = append(c.Opts.Args, "-buf-size", "10000000")
				}

				return c
			})
		}
	}

	for _, h := range []string{"a", "b"} {
		for _, m := range []int{0, 1, 500, 1000, 4096} {
			for n := 1; n <= 12; n++ {
				g.add(func() *Case {
					c := flagBase(rep(`{"a":1}`+"\n", n))
					c.Heap = h

					if m != 0 {
						c.Opts.MemLimit = m
						c.Opts.Args = append(c.Opts.Args, "-mem-limit", itoa(m))
					}

					c.Tag = "memory"

					return c
				})
			}
		}
	}

	// Concurrency left to the program.
	for _, doc := range docs {
		g.add(func() *Case {
			c := flagBase(doc)
			c.Opts.Args = nil
			c.Opts.Raw = "/out/o.raw"
			c.Opts.RawDelim = "|"
			c.Tag = "concurrency"

			return c
		})
	}

	for _, set := range sets {
		g.add(func() *Case {
			c := flagBase(docs[0])
			set.f(c)
			c.Opts.Args = append(c.Opts.Args, "-version")
			c.Tag = "version"

			return c
		})

		g.add(func() *Case {
			c := flagBase(docs[0])
			set.f(c)
			c.Opts.Args = append(c.Opts.Args, "-dbg-mem-prof", "/out/mem")
			c.Tag = "profile"

			return c
		})
	}
}

func checkFlags(x *Ctx, o *Obs) string {
	c := x.c

	switch c.Tag {
	case "version":
		if !o.ok() || len(o.Files) > 0 || o.Stderr != "" || strings.Count(o.Stdout, "\n") != 1 {
			return fmt.Sprintf("-version ended with %s and left %v, printed %q", o.status(), o.fileNames(), o.Stdout+o.Stderr)
		}

		return ""
	case "columns", "children":
		return stdCheck(x, o, cmpOpt{fold: true})
	case "concurrency":
		return stdCheck(x, o, cmpOpt{anyOrder: true, fold: true})
	case "memory":
		b := c.clone()
		b.Heap = ""
		bo := b.exec(b.basePlan())

		if !o.ok() || !bo.ok() {
			return "the run ended with " + o.status()
		}

		if c.Heap == "a" && o.Time != bo.Time {
			return fmt.Sprintf("memory is at the limit and the run takes %s instead of %s", time.Duration(o.Time), time.Duration(bo.Time))
		}

		if n := strings.Count(c.Files[0].Data, "\n"); c.Heap == "b" && n > 4 && o.Time == bo.Time {
			return "memory is over the limit and reading does not slow down"
		}

		return ""
	}

	if c.Tag == "buffer" {
		// Whether a line of just that length fits is left to the program.
		if n := strings.IndexByte(c.Files[0].Data, '\n'); n != 10000000 && (n < 10000000) != o.ok() {
			return "the run ended with " + o.status()
		}
	}

	if strings.HasSuffix(c.Tag, " none") && o.ok() && !c.Opts.NoInput {
		if msg := stdCheck(x, o, cmpOpt{fold: sqliteOf(c) != ""}); msg != "" {
			return msg
		}
	}

	// The run with all defaults given.
	b := c.clone()
	b.Opts.Args = append([]string{}, c.Opts.Args[:2]...)

	if strings.HasSuffix(c.Tag, " none") {
		for _, d := range flagDefaults {
			if !givesFlag(c, "-"+d[0]) {
				b.Opts.Args = append(b.Opts.Args, flagArgs(d)...)
			}
		}
	}

	bo := b.exec(b.basePlan())

	if c.Tag == "profile" && o.ok() && !c.Opts.NoInput {
		if len(o.Files["/out/mem"]) == 0 {
			return "no profile is written"
		}
	}

	delete(o.Files, "/out/mem")

	if msg := sameBytes(x, bo, o); msg != "" {
		return msg
	}

	if speeds.ReplaceAllString(o.Stderr, "") != speeds.ReplaceAllString(bo.Stderr, "") {
		return fmt.Sprintf("one run reported %q, another %q", clip(bo.Stderr), clip(o.Stderr))
	}

	return ""
}
