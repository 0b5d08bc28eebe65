package main

import "slices"

// underSchedules runs scenarios of a property under schedules of the scanning and of the flattening pass:
// what a property says about the result does not depend on the order workers take.
func underSchedules(g *Gen, names []string, own ...scenario) {
	list := own

	for _, s := range rowScenarios() {
		if slices.Contains(names, s.name) {
			list = append(list, s)
		}
	}

	for _, s := range list {
		for window := 1; window <= 2; window++ {
			// All schedules of two lines.
			g.add(func() *Case {
				c := s.build(2)
				c.Tag = "schedules"
				c.Mode, c.Window = "dpor", window

				if window == 1 && heavyScan[s.name] && !g.thorough {
					c.Mode, c.Bound = "pb", 1
				}

				return c
			})

			// Two lines, each statement may be where a worker is overtaken.
			g.add(func() *Case {
				c := s.build(2)
				c.Tag = "schedules"
				c.Mode, c.Window, c.Bound, c.Stmts = "db", window, 1, true

				return c
			})

			// All lines, schedules that leave the default order at most once, or twice.
			for _, conc := range []int{2, 3} {
				g.add(func() *Case {
					c := s.build(len(s.lines))
					c.Tag = "schedules"
					c.Opts.Concurrency = conc
					c.Mode, c.Window, c.Bound = "db", window, 4-conc

					if g.thorough {
						c.Mode = "pb"
					}

					return c
				})
			}
		}
	}
}

func limited(n int) func(c *Case) {
	return func(c *Case) { c.Opts.ChildrenLimit = ptr(n) }
}

var cardinalityScenarios = []scenario{
	{"at-limit", []string{`{"a":{"x":1,"y":2},"b":1}`, `{"a":{"x":3,"y":4}}`, `{"a":{"y":5,"x":6}}`}, limited(2)},
	{"at-limit-array", []string{`{"a":[1,2]}`, `{"a":[3,4]}`, `{"a":[5]}`}, limited(2)},
	{"over-limit", []string{`{"a":{"x":1}}`, `{"a":{"y":2}}`, `{"a":{"x":{"p":3}},"b":[1]}`}, limited(1)},
	{"over-limit-deep", []string{`{"o":{"a":{"x":1}}}`, `{"o":{"a":{"y":2}}}`, `{"o":{"b":1}}`}, limited(1)},
	{"over-limit-allowed", []string{`{"a":{"x":1},"b":{"p":1}}`, `{"a":{"y":2},"b":{"q":2}}`, `{"a":{"z":3}}`}, func(c *Case) {
		c.Opts.ChildrenLimit = ptr(1)
		c.Cfg.AllowCardinality = []string{".a"}
	}},
	{"object-or-array", []string{`{"a":{"x":1}}`, `{"a":[2]}`, `{"a":null}`}, limited(2)},
}

var keepScenarios = []scenario{
	{"kept-below", []string{`{"a":{"b":{"x":1}}}`, `{"a":{"b":[2]}}`, `{"a":{"b":"s"}}`}, func(c *Case) { c.Cfg.KeepJSON = []string{".a.b"} }},
	{"kept-two", []string{`{"a":{"x":1},"b":[1]}`, `{"b":{"y":2}}`, `{"a":[3],"b":null}`}, func(c *Case) { c.Cfg.KeepJSON = []string{".a", ".b"} }},
	{"kept-extract", []string{`{"a":{"x":"{\"p\":1}"}}`, `{"a":{"x":"[2]"},"b":"[3]"}`, `{"b":"{\"q\":4}"}`}, func(c *Case) {
		c.Cfg.KeepJSON = []string{".a"}
		c.Opts.ExtractStrings = true
	}},
}

var selectScenarios = []scenario{
	{"excluded", []string{`{"a":1,"b":2}`, `{"b":3,"c":4}`, `{"a":5,"c":6}`}, func(c *Case) { c.Cfg.ExcludeKeys = []string{".b"} }},
	{"excluded-regex", []string{`{"a":1,"b":{"c":2}}`, `{"b":{"d":3}}`, `{"a":5}`}, func(c *Case) { c.Cfg.ExcludeKeysRegex = []string{".b.*"} }},
	{"both", []string{`{"b":{"c":1,"d":2}}`, `{"b":{"d":3,"e":4}}`, `{"a":5}`}, func(c *Case) {
		c.Cfg.IncludeKeysRegex = []string{".b.*"}
		c.Cfg.ExcludeKeys = []string{".b.d"}
	}},
}

var transposeScenarios = []scenario{
	{"transposed-same-table", []string{`{"t":{"x":1},"u":{"x":2}}`, `{"t":{"y":3}}`, `{"u":{"y":4}}`}, func(c *Case) {
		c.Cfg.Transpose = map[string]string{".t": "tt", ".u": "tt"}
	}},
	{"transposed-columns", []string{`{"t":[{"a":1},{"b":2}]}`, `{"t":[{"b":3}]}`, `{"t":[4]}`}, func(c *Case) {
		c.Cfg.Transpose = map[string]string{".t": "tt"}
	}},
	{"transposed-kinds", []string{`{"t":[1]}`, `{"t":{"x":2}}`, `{"t":[3,4]}`}, func(c *Case) {
		c.Cfg.Transpose = map[string]string{".t": "tt"}
		c.Opts.PG = "/out/o.sql"
	}},
}

var mergeScenarios = []scenario{
	{"merged-spellings", []string{`{"a":1,"A":2}`, `{"A":3}`, `{"a":4}`}, func(c *Case) {}},
	{"joined-spellings", []string{`{"a":"p","A":"q"}`, `{"A":"r"}`, `{"a":"s"}`}, func(c *Case) { c.Cfg.ConcatDelimiter = ptr("-") }},
	{"merged-three", []string{`{"a":1,"b":2,"c":3}`, `{"c":4,"b":5}`, `{"b":null,"a":6}`}, func(c *Case) {
		c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v", ".c": "v"}
	}},
}

var prefixScenarios = []scenario{
	{"captures-only", []string{`aa 1`, `bb 2 {"a":2}`, `{"a":3}`}, func(c *Case) { c.Opts.MatchLinePrefix = `([a-z]+) (\d)` }},
	{"captures-joined", []string{`aa bb {"a":1}`, `cc {"a":2}`, `dd ee ff`}, func(c *Case) {
		c.Opts.MatchLinePrefix = `([a-z]+) `
		c.Cfg.ConcatDelimiter = ptr(",")
	}},
}

var extractScenarios = []scenario{
	{"strings-nested", []string{`{"a":"{\"b\":\"[1]\"}"}`, `{"a":"{\"b\":2}"}`, `{"a":"s"}`}, func(c *Case) { c.Opts.ExtractStrings = true }},
	{"strings-urls", []string{`{"a":"http://u:p@h:1/x/y?q=1&q=2#f"}`, `{"a":"http://i/z?r=3"}`, `{"b":"{\"u\":\"http://j\"}"}`}, func(c *Case) {
		c.Opts.ExtractStrings = true
	}},
	{"strings-json", []string{`{"a":"{\"x\":1}"}`, `{"a":"{\"y\":[2]}"}`, `{"b":"{\"x\":1}"}`}, func(c *Case) {
		c.Cfg.ExtractValuesRegex = map[string]string{".a": "JSON"}
	}},
}

var zeroScenarios = []scenario{
	{"zero-all", []string{`{"a":0,"b":"","c":false}`, `{"a":0,"b":null,"c":1}`, `{"b":"x","d":0}`}, func(c *Case) { c.Opts.SkipZeroCols = true }},
	{"zero-spellings", []string{`{"a":0}`, `{"A":1}`, `{"a":0,"b":0}`}, func(c *Case) { c.Opts.SkipZeroCols = true }},
}

var timeScenarios = []scenario{
	{"time-zone", []string{`{"a":"2020-01-02 03:04:05"}`, `{"a":"2021-07-04 23:59:59"}`, `{"a":null,"b":"2020-01-02 03:04:05"}`}, func(c *Case) {
		c.Cfg.ParseTime = map[string]string{".a": "2006-01-02 15:04:05"}
		c.Cfg.OutputTimezone = "America/New_York"
	}},
	{"time-two", []string{`{"a":"2020-01-02","b":"03/04/2021"}`, `{"b":"05/06/2022"}`, `{"a":"x"}`}, func(c *Case) {
		c.Cfg.ParseTime = map[string]string{".a": "2006-01-02", ".b": "02/01/2006"}
	}},
}

var fieldScenarios = []scenario{
	{"limit-kept", []string{`{"a":{"x":"pppppp"}}`, `{"a":["qqqqqqqq"]}`, `{"b":"rrrrrrr"}`}, func(c *Case) {
		c.Opts.FieldLimit = 4
		c.Cfg.KeepJSON = []string{".a"}
	}},
	{"limit-two", []string{`{"a":"pppppp","b":"q"}`, `{"a":"r","b":"ssssssss"}`, `{"a":123456,"b":true}`}, func(c *Case) { c.Opts.FieldLimit = 3 }},
}

var typeScenarios = []scenario{
	{"types-dump", []string{`{"a":1,"b":true}`, `{"a":1.5,"b":null}`, `{"a":"x","b":2}`, `{"a":null,"b":"y"}`}, func(c *Case) { c.Opts.PG = "/out/o.sql" }},
	{"types-coalesced", []string{`{"a":1}`, `{"b":true}`, `{"a":2,"b":1.5}`}, func(c *Case) {
		c.Opts.PG = "/out/o.sql"
		c.Cfg.ReplaceKeys = map[string]string{".a": "v", ".b": "v"}
	}},
	{"types-time", []string{`{"a":"2020-01-02"}`, `{"a":"x"}`, `{"a":null}`}, func(c *Case) {
		c.Opts.PG = "/out/o.sql"
		c.Cfg.ParseTime = map[string]string{".a": "2006-01-02"}
	}},
}

var databaseScenarios = []scenario{
	{"database", []string{`{"a":1,"b":"x"}`, `{"b":"y\"z"}`, `{"a":2.5,"b":null}`}, func(c *Case) { c.Opts.CSV, c.Opts.SQLite = "", "/out/o.sqlite" }},
	{"database-tables", []string{`{"t":{"x":1},"a":1}`, `{"t":{"y":2}}`, `{"a":3,"b":true}`}, func(c *Case) {
		c.Opts.CSV, c.Opts.SQLite = "", "/out/o.sqlite"
		c.Opts.SQLMaxCols = 2
		c.Cfg.Transpose = map[string]string{".t": "tt"}
	}},
}

var singleScenarios = []scenario{
	{"single-spellings", []string{`{"a":1,"A":2}`, `{"A":3}`, `{"a":"x"}`}, func(c *Case) { c.Opts.GetKey = ".a" }},
	{"single-index", []string{`{"a":[1,{"b":2}]}`, `{"a":{"[1]":{"b":3}}}`, `{"a":[{"b":4}]}`}, func(c *Case) { c.Opts.GetKey = ".a.[1].b" }},
	{"single-time", []string{`{"a":"2020-01-02"}`, `{"a":"x"}`, `{"a":null}`}, func(c *Case) {
		c.Opts.GetKey = ".a"
		c.Cfg.ParseTime = map[string]string{".a": "2006-01-02"}
	}},
}

var togetherScenarios = []scenario{
	{"together", []string{`{"a":1,"t":{"x":"p"}}`, `{"b":"q,r","t":{"y":2}}`, `{"a":null}`}, func(c *Case) {
		c.Opts.Raw, c.Opts.RawDelim, c.Opts.PG = "/out/o.raw", "|", "/out/o.sql"
		c.Cfg.Transpose = map[string]string{".t": "tt"}
	}},
	{"together-database", []string{`{"a":1,"b":"x"}`, `{"b":"y"}`, `{"a":2}`}, func(c *Case) {
		c.Opts.SQLite, c.Opts.PG = "/out/o.sqlite", "/out/o.sql"
	}},
}

var windowScenarios = []scenario{
	{"window-keys", []string{`{"a":1}`, `{"b":2}`, `{"c":3}`, `{"d":4}`}, func(c *Case) {
		c.Opts.OffsetLines = 1
		c.Opts.MaxLines = 2
	}},
	{"window-damaged", []string{`{"a":1}`, `{"a":`, `text`, `{"d":4}`}, func(c *Case) {
		c.Opts.MaxLines = 3
		c.Opts.AddSequence = true
		c.set("lenient", "1")
	}},
}

// schedulesOf lists scenarios of properties.
var schedulesOf = map[string]struct {
	names []string
	own   []scenario
}{
	"C05": {[]string{"plain", "nested", "case", "texts-escaped", "numbers"}, nil},
	"C06": {[]string{"types", "types-coalesce"}, typeScenarios},
	"C07": {[]string{"pg", "pg-parts", "transpose-pg"}, nil},
	"C08": {nil, databaseScenarios},
	"C09": {[]string{"single", "single-deep", "single-raw", "single-object", "single-extract"}, singleScenarios},
	"C10": {[]string{"csv+raw"}, togetherScenarios},
	"C11": {[]string{"transpose", "transpose-2", "transpose-pg"}, transposeScenarios},
	"C12": {[]string{"cardinality", "limit-deep"}, cardinalityScenarios},
	"C13": {[]string{"keepjson"}, keepScenarios},
	"C14": {[]string{"include", "include-regex", "const"}, selectScenarios},
	"C16": {[]string{"coalesce", "concat"}, mergeScenarios},
	"C17": {[]string{"offset"}, windowScenarios},
	"C18": {[]string{"sequence", "offset"}, windowScenarios},
	"C19": {[]string{"malformed", "empty"}, windowScenarios[1:]},
	"C20": {[]string{"prefix"}, prefixScenarios},
	"C21": {[]string{"extract", "url"}, extractScenarios},
	"C28": {[]string{"limit"}, fieldScenarios},
	"C29": {[]string{"zero"}, zeroScenarios},
	"C30": {[]string{"time"}, timeScenarios},
}

// scheduled adds schedules to a property about results.
func scheduled(p *Prop) {
	s, ok := schedulesOf[p.ID]
	if !ok {
		return
	}

	cases, check := p.Cases, p.Check

	p.Note += "; scenarios also run under schedules of each pass: all of two lines, those with two deviations of all lines, and those with one deviation at any statement"

	p.Cases = func(g *Gen) {
		cases(g)
		underSchedules(g, s.names, s.own...)
	}
	p.Check = func(x *Ctx, o *Obs) string {
		if x.c.Tag == "schedules" {
			return stdCheck(x, o, cmpOpt{anyOrder: true, fold: true})
		}

		return check(x, o)
	}
}
