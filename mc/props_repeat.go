package main

import (
	"fmt"
	"os"
	"time"

	"github.com/vearutop/flatjsonl/zzverif/vsql"
	"github.com/vearutop/flatjsonl/zzverif/vtime"
)

func init() {
	register(&Prop{
		ID: "C31", Level: "model_checking",
		Rule: "a case is one distinct input with one distinct set of options; it is run under every order of every iteration over a map (up to the stated number of deviations) and " +
			"once more at another time, in another zone, with other read sizes and under memory pressure; all runs must leave the same bytes",
		Note:  "one iteration over a map at a time is reversed or started at another entry (up to three swaps of neighbours anywhere for inputs of two or three entries); other sources of chance than maps, time, zone, reads, memory and schedules do not occur in the program",
		Cases: casesRepeat, Check: checkRepeat,
	})
}

type feature struct {
	name string
	set  func(c *Case)
}

// features use maps with several entries wherever the program keeps one.
func repeatable() []feature {
	return []feature{
		{"plain", func(c *Case) {}},
		{"transpose", func(c *Case) { c.Cfg.Transpose = map[string]string{".t": "tt", ".o": "oo"} }},
		{"transpose3", func(c *Case) { c.Cfg.Transpose = map[string]string{".t": "zz", ".o": "aa", ".d.x": "mm"} }},
		{"replace", func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "x", ".b": "y", ".d.x": "z"} }},
		{"replace-same", func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "x", ".b": "x", ".B": "x"} }},
		{"replace-variants", func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "x", ".A": "y", ".d.X": "v", ".d.x": "w"} }},
		{"transpose-nested", func(c *Case) { c.Cfg.Transpose = map[string]string{".o": "oo", ".o.m": "mm", ".d": "oo"} }},
		{"times-variants", func(c *Case) {
			c.Cfg.ParseTime = map[string]string{".s": "2006-01-02", ".S": "02/01/2006", ".A": "RAW"}
		}},
		{"keep-variants", func(c *Case) { c.Cfg.KeepJSON = []string{".d", ".D", ".o"}; c.Cfg.AllowCardinality = []string{".t"} }},
		{"include-variants", func(c *Case) { c.Cfg.IncludeKeys = []string{".B", ".b", ".a", ".A", ".d.X"} }},
		{"replace-regex", func(c *Case) {
			c.Cfg.ReplaceKeysRegex = map[string]string{"^[.](.*)$": "r_${1}", "^[.]([ab])$": "s_${1}", "[.]d[.](.*)": "d_${1}"}
		}},
		{"replace-simple", func(c *Case) {
			c.Cfg.ReplaceKeysRegex = map[string]string{".d.*": "v_${1}", ".*.x": "w_${1}", ".t.*": "u_${1}"}
		}},
		{"extract", func(c *Case) {
			c.Cfg.ExtractValuesRegex = map[string]string{"[.]u$": "URL", "[.]j$": "JSON"}
		}},
		{"extract-both", func(c *Case) {
			c.Cfg.ExtractValuesRegex = map[string]string{"[.](u|j)": "JSON", "[.](j|u)": "URL", "u": "JSON"}
		}},
		{"strings", func(c *Case) { c.Opts.ExtractStrings = true }},
		{"times", func(c *Case) {
			c.Cfg.ParseTime = map[string]string{".s": "2006-01-02", ".S": "02/01/2006", ".a": "RAW"}
			c.Cfg.OutputTimezone = "Europe/Berlin"
		}},
		{"include", func(c *Case) { c.Cfg.IncludeKeys = []string{".d.x", ".b", ".a", ".none"} }},
		{"include-const", func(c *Case) {
			c.Cfg.IncludeKeys = []string{"const:k", ".b", "const:l", ".a"}
			c.Cfg.ReplaceKeys = map[string]string{"const:k": "kk", "const:l": "ll"}
		}},
		{"include-regex", func(c *Case) { c.Cfg.IncludeKeysRegex = []string{"[.]d", "[ab]"}; c.Cfg.IncludeKeys = []string{".j"} }},
		{"exclude", func(c *Case) { c.Cfg.ExcludeKeys = []string{".a", ".d.y"}; c.Cfg.ExcludeKeysRegex = []string{"[.]t"} }},
		{"keep", func(c *Case) { c.Cfg.KeepJSON = []string{".d", ".o"} }},
		{"concat", func(c *Case) {
			c.Cfg.ConcatDelimiter = ptr("+")
			c.Cfg.ReplaceKeys = map[string]string{".a": "x", ".b": "x", ".d.x": "x"}
		}},
		{"limit", func(c *Case) { c.Opts.ChildrenLimit = ptr(1) }},
		{"limit-allow", func(c *Case) { c.Opts.ChildrenLimit = ptr(1); c.Cfg.AllowCardinality = []string{".d", ".o"} }},
		{"names", func(c *Case) { c.Opts.ReplaceKeys = true }},
		{"key-limit", func(c *Case) { c.Opts.KeyLimit = 3 }},
		{"skip", func(c *Case) { c.Opts.SkipZeroCols = true }},
		{"case", func(c *Case) { c.Opts.CaseSensitive = true }},
		{"sequence", func(c *Case) { c.Opts.AddSequence = true }},
		{"prefix", func(c *Case) { c.Opts.MatchLinePrefix = `(?P<q>p)(r)?` }},
		{"get", func(c *Case) { c.Opts.GetKey = ".d.x" }},
		{"cols", func(c *Case) { c.Opts.SQLMaxCols = 3 }},
		{"field", func(c *Case) { c.Opts.FieldLimit = 2 }},
		{"flat", func(c *Case) { c.Opts.ShowFlat = true }},
		{"hier", func(c *Case) { c.Opts.ShowHier = true }},
		{"info", func(c *Case) { c.Opts.ShowInfo = true }},
		{"schema", func(c *Case) { c.Opts.ShowSchema = true }},
	}
}

func casesRepeat(g *Gen) {
	docs := [][]string{
		{
			`{"a":1,"b":"x","d":{"x":1,"y":null},"t":[1,{"q":2}],"o":{"m":{"v":1},"n":{"w":2}},"u":"http://u:p@h:1/p?k=1&l=2#f","j":"{\"x\":1,\"y\":{\"z\":2}}","s":"2024-01-02","S":"x"}`,
			`pr {"B":2,"a":0,"A":1.5,"d":{"X":3,"x":"s"},"t":[[3],{"Q":1,"r":null}],"o":{"n":{"v":7},"m":3},"u":"/p?k=2","s":"bad","S":"02/03/2024"}`,
		},
		{`{"b":false,"a":null,"d":{"y":{"x":1}},"o":[{"v":1},{"w":2}],"t":{"x":1,"y":2}}`, `{}`, `{"a.b":1,"a":{"b":2},"d.x":3,"d":{"x":4}}`},
	}

	outs := []struct {
		name string
		set  func(c *Case)
	}{
		{"csv", func(c *Case) { c.Opts.CSV = "/out/o.csv" }},
		{"pg", func(c *Case) { c.Opts.PG = "/out/o.sql" }},
		{"raw", func(c *Case) { c.Opts.Raw = "/out/o.raw" }},
		{"sqlite", func(c *Case) { c.Opts.SQLite, c.RawDB = "/out/o.sqlite", true }},
		{"all", func(c *Case) { c.Opts.Output, c.Opts.PG = "/out/o.csv.gz,/out/o.raw", "/out/o.sql.zst" }},
	}

	fs := repeatable()

	for i, f1 := range fs {
		for j := i; j < len(fs); j++ {
			f2 := fs[j]

			for d, doc := range docs {
				for k, out := range outs {
					// Each pair goes with one output of text for each input, single features and transposition with all.
					if !g.thorough && i != 1 && i != j && k != (i+j+d)%3 {
						continue
					}

					g.add(func() *Case {
						c := in(lines(doc...))
						out.set(c)
						f1.set(c)
						f2.set(c)
						c.Map = 4
						c.Mode, c.Bound = "env", 1
						c.Tag = f1.name + " " + f2.name + " " + out.name

						if g.thorough && i == j {
							c.Bound, c.Max = 2, 20000
						}

						return c
					})
				}
			}
		}
	}

	// Any order, for few keys.
	for _, doc := range [][]string{
		{`{"a":1,"b":2}`}, {`{"t":[1],"o":{"x":2}}`}, {`{"a":1,"A":2}`}, {`{"s":"2024-01-02","S":"2024-01-03"}`}, {`{"j":"{\"x\":1,\"y\":2}"}`},
	} {
		for _, f := range fs {
			for k, out := range outs {
				if k >= 3 && !g.thorough {
					continue
				}

				g.add(func() *Case {
					c := in(lines(doc...))
					out.set(c)
					f.set(c)
					c.Map = 2
					c.Mode, c.Bound = "env", 2

					if g.thorough {
						c.Bound = 3
					}

					c.Tag = "any order " + f.name + " " + out.name

					return c
				})
			}
		}
	}

	// With keys known beforehand the output does not depend on the schedule either.
	for _, doc := range docs {
		for _, out := range outs[:3] {
			for _, keys := range [][]string{{".a", ".b"}, {".d.x", "const:k", ".none", ".j"}, {".a"}} {
				for _, get := range []string{"", ".b"} {
					g.add(func() *Case {
						c := in(lines(append(doc, doc...)...))
						out.set(c)
						c.Cfg.IncludeKeys = keys
						c.Opts.GetKey = get
						c.Opts.Concurrency = 2
						c.Mode, c.Bound = "db", 1
						c.Map = 4
						c.Tag = "schedules"

						if g.thorough {
							c.Bound, c.Max = 2, 30000
						}

						return c
					})
				}
			}
		}
	}
}

func checkRepeat(x *Ctx, o *Obs) string {
	if msg := sameBytes(x, x.first, o); msg != "" {
		return msg
	}

	if o != x.first || freeMode {
		return ""
	}

	// Other surroundings.
	defer func(l *time.Location, e time.Time) { time.Local, vtime.Epoch = l, e }(time.Local, vtime.Epoch)

	if l, err := time.LoadLocation("Pacific/Kiritimati"); err == nil {
		time.Local = l
	}

	vtime.Epoch = vtime.Epoch.Add(257*24*time.Hour + 12345*time.Second)

	c := *x.c
	c.Chunk = []int{1, 3, 2}
	c.Heap = "ynnyn"

	pl := c.basePlan()
	pl.MapMode = 1

	if msg := sameBytes(x, o, c.exec(pl)); msg != "" {
		return "at another time, in another zone, with short reads and little memory: " + msg
	}

	return ""
}

// sameBytes compares all that two runs left.
func sameBytes(x *Ctx, a, b *Obs) string {
	if a == b {
		return ""
	}

	if a.status() != b.status() {
		return fmt.Sprintf("one run ended with %s, another with %s", a.status(), b.status())
	}

	an, bn := a.fileNames(), b.fileNames()
	if fmt.Sprint(an) != fmt.Sprint(bn) {
		return fmt.Sprintf("one run wrote %v, another %v", an, bn)
	}

	for n, d := range a.Files {
		if e := b.Files[n]; string(d) != string(e) {
			return fmt.Sprintf("one run wrote %q to %s, another %q", clip(string(d)), n, clip(string(e)))
		}
	}

	if a.Stdout != b.Stdout {
		return fmt.Sprintf("one run printed %q, another %q", clip(a.Stdout), clip(b.Stdout))
	}

	if a.DBRaw != b.DBRaw {
		for _, n := range sortedKeys(a.DB) {
			if fmt.Sprint(a.DB[n]) != fmt.Sprint(b.DB[n]) {
				return fmt.Sprintf("one run left table %v in the database, another %v", a.DB[n], b.DB[n])
			}
		}

		return "the database files of two runs differ"
	}

	return ""
}

// dbSum identifies a database file.
func dbSum(name string) string {
	b, err := os.ReadFile(vsql.Path(name))
	if err != nil {
		return err.Error()
	}

	return string(b)
}
