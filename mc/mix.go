package main

// Options next to each other: every option that belongs to a property is combined with every three
// others on inputs in which all of them have something to do.

type mixOpt struct {
	own   string // the property
	group string // options of a group are not combined
	set   func(c *Case)
}

func putm(m *map[string]string, kv ...string) {
	if *m == nil {
		*m = map[string]string{}
	}

	for i := 0; i+1 < len(kv); i += 2 {
		(*m)[kv[i]] = kv[i+1]
	}
}

func mixOpts() []mixOpt {
	return []mixOpt{
		{"C11", "transpose", func(c *Case) { putm(&c.Cfg.Transpose, ".t", "tt", ".o", "oo") }},
		{"C11", "transpose", func(c *Case) { putm(&c.Cfg.Transpose, ".d", "xx", ".o.m", "mm", ".o", "oo") }},
		{"C11", "transpose", func(c *Case) { putm(&c.Cfg.Transpose, ".j.JSON", "jj", ".t", "jj") }},
		{"C12", "limit", func(c *Case) { c.Opts.ChildrenLimit = ptr(1) }},
		{"C12", "limit", func(c *Case) { c.Opts.ChildrenLimit = ptr(2) }},
		{"C12", "limit", func(c *Case) { c.Opts.ChildrenLimit = ptr(1); c.Cfg.AllowCardinality = []string{".o", ".t"} }},
		{"C13", "keep", func(c *Case) { c.Cfg.KeepJSON = []string{".d", ".t"} }},
		{"C13", "keep", func(c *Case) { c.Cfg.KeepJSON = []string{".o.n", ".d.z", ".none"} }},
		{"C14", "include", func(c *Case) {
			c.Cfg.IncludeKeys = []string{".d.x", ".b", "const:k", ".a", ".none"}
			putm(&c.Cfg.ReplaceKeys, "const:k", "kk")
		}},
		{"C14", "include", func(c *Case) { c.Cfg.IncludeKeys = []string{".t", ".o", ".s", ".u"} }},
		{"C14", "include", func(c *Case) { c.Cfg.IncludeKeysRegex = []string{"[.][dj]", "^[.][ab]$"} }},
		{"C14", "include", func(c *Case) { c.Cfg.IncludeKeysRegex = []string{".o.*"}; c.Cfg.IncludeKeys = []string{".s", ".u"} }},
		{"C14", "exclude", func(c *Case) { c.Cfg.ExcludeKeys = []string{".a", ".d.y", ".o.n.w"} }},
		{"C14", "exclude", func(c *Case) { c.Cfg.ExcludeKeysRegex = []string{"[.][tu]", "x$"} }},
		{"C15", "rename", func(c *Case) { putm(&c.Cfg.ReplaceKeys, ".a", "x", ".d.x", "z", ".s", "day", ".o.m", "om") }},
		{"C15", "rename", func(c *Case) { putm(&c.Cfg.ReplaceKeysRegex, "^[.]([abs])$", "r_${1}", "[.]d[.](.*)", "d_${1}") }},
		{"C15", "names", func(c *Case) { c.Opts.ReplaceKeys = true }},
		{"C16", "merge", func(c *Case) { putm(&c.Cfg.ReplaceKeys, ".a", "m", ".b", "m", ".e", "m") }},
		{"C16", "merge", func(c *Case) {
			putm(&c.Cfg.ReplaceKeys, ".a", "m", ".b", "m", ".d.x", "m")
			c.Cfg.ConcatDelimiter = ptr("+")
		}},
		{"C17", "window", func(c *Case) { c.Opts.MaxLines = 2 }},
		{"C17", "window", func(c *Case) { c.Opts.OffsetLines = 1 }},
		{"C17", "window", func(c *Case) { c.Opts.OffsetLines = 1; c.Opts.MaxLines = 1 }},
		{"C18", "sequence", func(c *Case) { c.Opts.AddSequence = true }},
		{"C20", "prefix", func(c *Case) { c.Opts.MatchLinePrefix = `(p)?(r)` }},
		{"C20", "prefix", func(c *Case) { c.Cfg.MatchLinePrefix = `^(?P<first>\w)` }},
		{"C20", "prefix", func(c *Case) { c.Opts.MatchLinePrefix = `([p-r])([a-q])?` }},
		{"C21", "extract", func(c *Case) { putm(&c.Cfg.ExtractValuesRegex, "[.]u$", "URL", "[.]j$", "JSON") }},
		{"C21", "strings", func(c *Case) { c.Opts.ExtractStrings = true }},
		{"C28", "field", func(c *Case) { c.Opts.FieldLimit = 4 }},
		{"C29", "skip", func(c *Case) { c.Opts.SkipZeroCols = true }},
		{"C30", "time", func(c *Case) { putm(&c.Cfg.ParseTime, ".s", "2006-01-02") }},
		{"C30", "time", func(c *Case) {
			putm(&c.Cfg.ParseTime, ".s", "2006-01-02", ".a", "RAW", ".t.[0]", "2006")
			c.Cfg.OutputTimezone, c.Cfg.OutputTimeFormat = "Europe/Berlin", "2006-01-02T15:04:05Z07:00"
		}},
		{"C05", "case", func(c *Case) { c.Opts.CaseSensitive = true }},
		{"C09", "get", func(c *Case) { c.Opts.GetKey = ".d.x" }},
		{"C09", "get", func(c *Case) { c.Opts.GetKey = ".o" }},
		{"C09", "get", func(c *Case) { c.Opts.GetKey = ".u" }},
		{"C07", "cols", func(c *Case) { c.Opts.SQLMaxCols = 3 }},
		{"C08", "db", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite" }},
		{"C10", "raw", func(c *Case) { c.Opts.Raw, c.Opts.RawDelim = "/out/o.raw", ";" }},
		{"C19", "damage", func(c *Case) {
			for i := range c.Files {
				c.Files[i].Data = "{\"d\":{\"x\":\n" + c.Files[i].Data + "p {\"q\":[1}\n"
			}
		}},
		{"C24", "zip", func(c *Case) {
			c.Opts.CSV, c.Opts.PG = "/out/o.csv.gz", "/out/o.sql.zst"
			c.Chunk = []int{3, 1}
		}},
		{"C06", "none", func(c *Case) {}},
		{"C01", "workers", func(c *Case) { c.Opts.Concurrency = 3 }},
	}
}

func mixDocs() [][]string {
	return [][]string{
		{
			`{"a":1,"b":"x","d":{"x":1,"y":null},"t":[1,{"q":2}],"o":{"m":{"v":1},"n":{"w":2}},"u":"http://u:p@h:1/p?k=1&l=2#f","j":"{\"x\":1,\"y\":{\"z\":2}}","s":"2024-01-02"}`,
			`pr {"b":2,"a":0,"d":{"x":3.5,"z":"text"},"t":[[3],{"q":1,"r":null}],"o":{"n":{"v":7},"m":3},"u":"/p?k=2","s":"2024-05-06","j":"no"}`,
			`r{"e":true}`,
		},
		{
			`{"o":[{"v":1},{"w":"2020-02-03"}],"b":null,"t":{"x":1,"y":"z"}}`,
			`{}`,
			`p {"a":"","t":[],"s":"bad","d":{"z":{"k":[1,2]}},"j":"[1,{\"a\":\"b\"}]"}`,
			`{"u":"#","d":{"x":"long text, quoted"},"e":false,"a":"1577836800"}`,
		},
		{
			`{"D":{"X":5},"B":"y","S":"2023-02-01","T":[4]}`,
			`{"a":2,"d":{"x":6,"Y":true},"s":"2023-12-31","t":[{"Q":"q"},null],"U":"/a?b=c"}`,
			`p{"A":3,"J":"{\"X\":[]}","O":{"M":{"V":1}}}`,
		},
	}
}

// mix adds the combinations to a property.
func mix(p *Prop) {
	n, cases, check := 0, p.Cases, p.Check

	for _, o := range mixOpts() {
		if o.own == p.ID {
			n++
		}
	}

	if n == 0 {
		return
	}

	p.Cases = func(g *Gen) {
		cases(g)
		mixed(g, p.ID)
	}
	p.Check = func(x *Ctx, o *Obs) string {
		if x.c.Tag == "mix" {
			return stdCheck(x, o, cmpOpt{fold: true})
		}

		return check(x, o)
	}
}

func mixed(g *Gen, own string) {
	os := mixOpts()
	docs := mixDocs()

	turn := 0

	add := func(sel ...mixOpt) {
		turn++

		for i := range docs {
			for _, two := range []bool{false, true} {
				// Four options at once take turns with inputs.
				if len(sel) > 3 && !g.thorough && (turn%3 != i || turn%2 == 0 != two) {
					continue
				}

				g.add(func() *Case {
					c := in(lines(docs[i]...))
					c.Tag = "mix"
					c.Opts.CSV, c.Opts.PG = "/out/o.csv", "/out/o.sql"

					if two {
						c.Files = append(c.Files, File{Name: "/in/b.log", Data: lines(docs[(i+1)%len(docs)]...)})
					}

					for _, o := range sel {
						o.set(c)
					}

					// A key asked for that is kept in its parent and belongs to a transposed table has no place.
					if c.Opts.GetKey == ".d.x" && c.Opts.ChildrenLimit != nil {
						delete(c.Cfg.Transpose, ".d")
					}

					// Columns of a database are not case-sensitive.
					if c.Opts.CaseSensitive && (two || i == 2) {
						c.Opts.SQLite = ""
					}

					return c
				})
			}
		}
	}

	const n = 4

	// Options of the list from the given one on, next to those selected.
	var rest func(sel []mixOpt, from int)

	rest = func(sel []mixOpt, from int) {
		add(sel...)

		if len(sel) == n {
			return
		}

		for j := from; j < len(os); j++ {
			ok := true

			for _, s := range sel {
				ok = ok && s.group != os[j].group
			}

			if ok {
				rest(append(sel[:len(sel):len(sel)], os[j]), j+1)
			}
		}
	}

	for _, o := range os {
		if o.own == own {
			rest([]mixOpt{o}, 0)
		}
	}
}
