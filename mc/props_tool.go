package main

import (
	"bytes"
	"encoding/csv"
	"regexp"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C26", Level: "exploration",
		Rule:  "a case is one complete run with one rendering of a configuration or of the names of inputs and outputs; every output is compared with the reference",
		Note:  inputNote + "; JSON5 as the decoder of the program understands it (line comments, trailing commas, keys without quotes)",
		Cases: casesConfig, Check: checkConfig,
	})
	register(&Prop{
		ID: "C27", Level: "exploration",
		Rule:  "a case is one complete run of the comparison tool on a distinct pair of files; the exit status is compared with that of a cell by cell comparison",
		Note:  "tables within the stated bounds; blank lines hold no record and carriage returns before line feeds are not significant, as in encoding/csv",
		Cases: casesEquals, Check: checkEquals,
	})
}

// --- C26 ---

type cfgField struct {
	name string
	list []string
	dict map[string]string
	str  *string
}

func (c *Cfg) fields() []cfgField {
	var r []cfgField

	str := func(n, v string) {
		if v != "" {
			r = append(r, cfgField{name: n, str: &v})
		}
	}
	list := func(n string, v []string) {
		if v != nil {
			r = append(r, cfgField{name: n, list: v})
		}
	}
	dict := func(n string, v map[string]string) {
		if v != nil {
			r = append(r, cfgField{name: n, dict: v})
		}
	}

	str("matchLinePrefix", c.MatchLinePrefix)
	list("includeKeys", c.IncludeKeys)
	list("includeKeysRegex", c.IncludeKeysRegex)
	list("excludeKeys", c.ExcludeKeys)
	list("excludeKeysRegex", c.ExcludeKeysRegex)
	dict("replaceKeys", c.ReplaceKeys)
	dict("replaceKeysRegex", c.ReplaceKeysRegex)
	dict("parseTime", c.ParseTime)
	str("outputTimeFormat", c.OutputTimeFormat)
	str("outputTZ", c.OutputTimezone)

	if c.ConcatDelimiter != nil {
		r = append(r, cfgField{name: "concatDelimiter", str: c.ConcatDelimiter})
	}

	dict("transpose", c.Transpose)
	dict("extractValuesRegex", c.ExtractValuesRegex)
	list("keepJSON", c.KeepJSON)
	list("allowCardinality", c.AllowCardinality)

	return r
}

var (
	identRe = regexp.MustCompile(`^[a-zA-Z_]\w*$`)
	plainRe = regexp.MustCompile(`^\.?[a-zA-Z][\w.]*$`)
	yamlWds = regexp.MustCompile(`(?i)^(y|n|yes|no|on|off|true|false|null)$`)
)

type style struct {
	name                      string
	inline                    bool
	nl, ind                   string // between members; one level
	head, foot                string
	comma, sep                string
	key, val                  func(s string) string
	block                     bool
	reverse                   bool
	extra                     string // after every list item and member
	firstExtra                string // before the first member
	lastComma, escape, crlf   bool
	openL, closeL, openD, end string
}

func dq(s string) string { return string(quoteJSON(s)) }

func dqASCII(s string) string {
	var b bytes.Buffer

	b.WriteByte('"')

	for _, r := range s {
		switch {
		case r > 0xffff:
			r -= 0x10000
			b.WriteString(`\u` + hex4(0xd800+r>>10) + `\u` + hex4(0xdc00+r&0x3ff))
		case r < ' ' || r > '~' || r == '"' || r == '\\' || r == '/':
			b.WriteString(`\u` + hex4(r))
		default:
			b.WriteRune(r)
		}
	}

	b.WriteByte('"')

	return b.String()
}

func hex4(r rune) string {
	const h = "0123456789abcdef"
	return string([]byte{h[r>>12&15], h[r>>8&15], h[r>>4&15], h[r&15]})
}

func sq(s string) string {
	for _, r := range s {
		if r < ' ' || r > 0xfffd || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff {
			return dq(s)
		}
	}

	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
}

func plainY(s string) string {
	if plainRe.MatchString(s) && !yamlWds.MatchString(s) {
		return s
	}

	return sq(s)
}

func ident(s string) string {
	if identRe.MatchString(s) {
		return s
	}

	return dq(s)
}

var styles = []style{
	{name: "inline", inline: true, key: dq, val: dq},
	{name: "inline-escaped", inline: true, key: dqASCII, val: dqASCII, nl: "\n", ind: " "},
	{name: "json", key: dq, val: dq},
	{name: "json-pretty", key: dq, val: dq, nl: "\n", ind: "  ", sep: " "},
	{name: "json-tabs", key: dq, val: dq, nl: "\n", ind: "\t", sep: " ", foot: "\n\n"},
	{name: "json-crlf", key: dq, val: dq, nl: "\r\n", ind: " ", foot: "\r\n"},
	{name: "json-escaped", key: dqASCII, val: dqASCII, nl: "\n", ind: "    "},
	{name: "json-reversed", key: dq, val: dq, reverse: true, head: "\n\n "},
	{name: "json5", key: ident, val: dq, nl: "\n", ind: "  ", sep: " ", lastComma: true},
	{name: "json5-comments", key: ident, val: dq, nl: "\n", ind: "  ", sep: " ", lastComma: true, extra: " // note: [x], {y} \"z\"", firstExtra: "// first"},
	{name: "json5-quoted", key: dq, val: dq, nl: "\n", ind: "\t", lastComma: true, extra: "//", head: "// head\n"},
	{name: "yaml", key: plainY, val: plainY, nl: "\n", ind: "  ", block: true},
	{name: "yaml-double", key: dq, val: dq, nl: "\n", ind: " ", block: true, head: "---\n", foot: "...\n"},
	{name: "yaml-single", key: sq, val: sq, nl: "\n", ind: "    ", block: true, extra: " # note: [x], {y} \"z\"", head: "# head\n"},
	{name: "yaml-reversed", key: plainY, val: dq, nl: "\n", ind: "  ", block: true, reverse: true, head: "\n\n"},
	{name: "yaml-crlf", key: plainY, val: sq, nl: "\r\n", ind: "  ", block: true},
	{name: "yaml-flow", key: plainY, val: plainY, sep: " ", nl: "\n", ind: " "},
}

func (st style) render(c *Cfg) string {
	ff := c.fields()

	if st.reverse {
		for i, j := 0, len(ff)-1; i < j; i, j = i+1, j-1 {
			ff[i], ff[j] = ff[j], ff[i]
		}
	}

	var b strings.Builder

	b.WriteString(st.head)

	if st.block {
		if len(ff) == 0 {
			b.WriteString("{}" + st.nl)
		}

		for _, f := range ff {
			b.WriteString(st.key(f.name) + ":")

			switch {
			case f.str != nil:
				b.WriteString(" " + st.val(*f.str) + st.extra + st.nl)
			case f.list != nil:
				if len(f.list) == 0 {
					b.WriteString(" []")
				}

				b.WriteString(st.extra + st.nl)

				for _, v := range f.list {
					b.WriteString(st.ind + "- " + st.val(v) + st.extra + st.nl)
				}
			default:
				if len(f.dict) == 0 {
					b.WriteString(" {}")
				}

				b.WriteString(st.extra + st.nl)

				for _, k := range sortedKeys(f.dict) {
					b.WriteString(st.ind + st.key(k) + ": " + st.val(f.dict[k]) + st.extra + st.nl)
				}
			}
		}

		b.WriteString(st.foot)

		return b.String()
	}

	sep := ":" + st.sep
	if st.name == "yaml-flow" {
		sep = ": "
	}

	items := func(open, end string, ind string, ii []string) {
		b.WriteString(open)

		if st.firstExtra != "" && len(ii) > 0 {
			b.WriteString(st.nl + ind + st.ind + st.firstExtra)
		}

		for i, s := range ii {
			b.WriteString(st.nl + strings.Repeat(" ", 0) + ind + st.ind + s)

			// The decoder knows no comments after a trailing comma.
			if i < len(ii)-1 {
				b.WriteString("," + st.extra)
			} else if st.lastComma {
				b.WriteString(",")
			}
		}

		if len(ii) > 0 {
			b.WriteString(st.nl + ind)
		}

		b.WriteString(end)
	}

	b.WriteString("{")

	for i, f := range ff {
		b.WriteString(st.nl + st.ind + st.key(f.name) + sep)

		var ii []string

		switch {
		case f.str != nil:
			b.WriteString(st.val(*f.str))
		case f.list != nil:
			for _, v := range f.list {
				ii = append(ii, st.val(v))
			}

			items("[", "]", st.ind, ii)
		default:
			for _, k := range sortedKeys(f.dict) {
				ii = append(ii, st.key(k)+sep+st.val(f.dict[k]))
			}

			items("{", "}", st.ind, ii)
		}

		if i < len(ff)-1 {
			b.WriteString("," + st.extra)
		} else if st.lastComma {
			b.WriteString(",")
		}
	}

	b.WriteString(st.nl + "}" + st.foot)

	return b.String()
}

func casesConfig(g *Gen) {
	sample := []string{
		`k=v {"a":1,"b":"2020-01-02T03:04:05Z","c":{"x":1,"y":2,"z":3},"u":"http://h/p","j":"{\"q\":1}","l":[{"m":1},{"m":"x"}]}`,
		`{"a":"s","A":2,"l":[{"n":null,"m":3}],"c":{"y":"w"}}`,
		`p=q {"b":"2021-06-07T08:09:10+02:00","u":"x","j":"[1]"}`,
	}

	fileNames := []string{"/cfg/c.json", "/cfg/c.yaml", "/cfg/c", "/cfg/c.json5", "/cfg/c.yml", "/cfg/c.txt"}

	add := func(ls []string, f func(c *Case)) {
		for i, st := range styles {
			g.add(func() *Case {
				c := csvCase(lines(ls...))
				f(c)

				text := st.render(&c.Cfg)
				c.Opts.ConfigFile = text

				if !st.inline {
					c.Opts.ConfigFile = fileNames[i%len(fileNames)]
					c.Extra = []File{{c.Opts.ConfigFile, text}}
				}

				c.Tag = st.name

				return c
			})
		}
	}

	opts := []func(c *Case){
		func(c *Case) { c.Cfg.MatchLinePrefix = `(\w)=(\w)` },
		func(c *Case) { c.Cfg.IncludeKeys = []string{".c.x", ".a"} },
		func(c *Case) { c.Cfg.IncludeKeys = []string{"const:k: v", ".b"} },
		func(c *Case) { c.Cfg.IncludeKeysRegex = []string{".c.*", `^\.[ab]$`} },
		func(c *Case) { c.Cfg.ExcludeKeys = []string{".b", ".c.y"} },
		func(c *Case) { c.Cfg.ExcludeKeysRegex = []string{".c.*", `u$`} },
		func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".a": "AA", ".b": "B: b"} },
		func(c *Case) { c.Cfg.ReplaceKeysRegex = map[string]string{".c.*": "c_${1}"} },
		func(c *Case) { c.Cfg.ParseTime = map[string]string{".b": "2006-01-02T15:04:05Z07:00"} },
		func(c *Case) {
			c.Cfg.ParseTime = map[string]string{".b": "2006-01-02T15:04:05Z07:00"}
			c.Cfg.OutputTimeFormat = "2006-01-02 15:04:05"
		},
		func(c *Case) {
			c.Cfg.ParseTime = map[string]string{".b": "2006-01-02T15:04:05Z07:00"}
			c.Cfg.OutputTimezone = "Europe/Berlin"
		},
		func(c *Case) {
			c.Cfg.ReplaceKeys = map[string]string{".a": "X", ".b": "X", ".u": "X"}
			c.Cfg.ConcatDelimiter = ptr(", ")
		},
		func(c *Case) {
			c.Cfg.ReplaceKeys = map[string]string{".a": "X", ".b": "X", ".u": "X"}
			c.Cfg.ConcatDelimiter = ptr("")
		},
		func(c *Case) { c.Cfg.Transpose = map[string]string{".l": "tl"} },
		func(c *Case) { c.Cfg.Transpose = map[string]string{".l": "tl", ".c": "tc"} },
		func(c *Case) { c.Cfg.ExtractValuesRegex = map[string]string{".u": "URL", ".j": "JSON"} },
		func(c *Case) { c.Cfg.KeepJSON = []string{".c", ".l"} },
		func(c *Case) { c.Opts.ChildrenLimit = ptr(2); c.Cfg.AllowCardinality = []string{".c"} },
		func(c *Case) {},
		func(c *Case) { c.Cfg.IncludeKeys, c.Cfg.ReplaceKeys = []string{}, map[string]string{} },
	}

	for i, f := range opts {
		add(sample, f)

		for _, h := range opts[:i] {
			add(sample, func(c *Case) { f(c); h(c) })

			if g.thorough {
				for _, k := range opts[:i] {
					add(sample, func(c *Case) { k(c); f(c); h(c) })
				}
			}
		}
	}

	// Spelling of strings.
	odd := []string{
		"a: b", "#c", "a #c", "- d", "yes", "no", "1", "1.5", "~", "null", "true", "é", "😀", "it's", `q"q`, `b\b`, "a\tb", "l\nl", " lead", "trail ", "[x]", "{x}",
		"// x", "a // x", "/* x */", "*a", "&a", "!a", "%a", "@a", "`a`", "|", ">", "?", "? a", "-", "---", ":", "a:", ",", "a,b", "0x1f", "1e3", "2020-01-02", "=", "<<", "\u2028",
	}

	for _, s := range odd {
		ls := []string{obj(s, "1", "z", obj(s, `"v"`)), obj("z", "[3]", "Z", "4")}
		add(ls, func(c *Case) { c.Cfg.IncludeKeys = []string{"." + s, ".z." + s} })
		add(ls, func(c *Case) { c.Cfg.ReplaceKeys = map[string]string{".z." + s: s, "." + s: "X" + s} })
		add(ls, func(c *Case) { c.Cfg.ExcludeKeys = []string{"." + s} })
		add(ls, func(c *Case) { c.Cfg.IncludeKeys = []string{"const:" + s, ".z." + s} })
		add(ls, func(c *Case) {
			c.Cfg.ConcatDelimiter = ptr(s)
			c.Cfg.ReplaceKeys = map[string]string{".z." + s: "X", "." + s: "X"}
		})

		if !strings.ContainsAny(s, "/") {
			add(ls, func(c *Case) { c.Cfg.Transpose = map[string]string{".z": "t" + s} })
		}
	}

	// Flags and configuration.
	both := func(f func(c *Case)) {
		g.add(func() *Case {
			c := csvCase(lines(sample...))
			f(c)

			return c
		})
	}

	for _, p := range []string{`(\w)=(\w)`, `(\w)=`, `=(\w)`, `(x)`} {
		for _, q := range []string{"", `(\w)=(\w)`, `=(\w+)`} {
			both(func(c *Case) { c.Opts.MatchLinePrefix = p; c.Cfg.MatchLinePrefix = q })
			both(func(c *Case) { c.Opts.MatchLinePrefix = q; c.Cfg.MatchLinePrefix = p })
		}
	}

	for _, k := range []string{".a", ".c.x", ".b"} {
		for _, in := range [][]string{nil, {".u"}, {".u", ".a"}, {k}, {"const:x", ".c.x"}} {
			both(func(c *Case) { c.Opts.GetKey = k; c.Cfg.IncludeKeys = in })
			both(func(c *Case) {
				c.Opts.GetKey = k
				c.Cfg.IncludeKeys = in
				c.Cfg.ReplaceKeys = map[string]string{k: "K"}
			})
			both(func(c *Case) { c.Opts.GetKey = k; c.Cfg.IncludeKeys = in; c.Cfg.ExcludeKeys = []string{".u"} })
		}
	}

	// Names of inputs.
	files := []File{{"/in/1.log", sample[0] + "\n"}, {"/in/2.log", sample[1]}, {"/in/3", sample[2] + "\n" + sample[0]}, {"/in/1.log", sample[1]}}

	upTo([]int{0, 1, 2}, 3, func(ix []int) {
		for pos := 0; pos <= len(ix); pos++ {
			for n := 0; n < 4; n++ {
				g.add(func() *Case {
					c := &Case{}
					for _, i := range ix {
						c.Files = append(c.Files, files[i])
					}

					// Arguments come first.
					c.Opts.Positional = pos

					switch n {
					case 0:
						c.Opts.CSV = "/out/o.csv"
					case 1:
						c.Opts.CSV = "/out/o.csv"
						c.Opts.AddSequence = true
						c.Opts.MaxLines = 1
					case 2:
						c.set("default", c.Files[0].Name+".csv")
					case 3:
						c.Opts.Output = "/out/o.raw"
						c.Opts.RawDelim = "|"
					}

					return c
				})
			}
		}
	})

	// Names of outputs.
	names := []string{"/out/o.csv", "/out/O.CSV", "/out/o.csv.gz", "/out/o.raw", "/out/p.Raw", "/out/o.raw.zst", "/out/o.sqlite", "/out/p.csv.zst", "/out/q.csv"}

	upTo(names, 3, func(s []string) {
		if dup(s) {
			return
		}

		g.add(func() *Case {
			c := in(lines(sample...))
			c.Opts.RawDelim = "|"
			c.Opts.Output = strings.Join(s, ",")

			return c
		})

		if len(s) > 2 {
			return
		}

		g.add(func() *Case {
			c := in(lines(sample...))
			c.Opts.RawDelim = "|"
			c.Opts.CSV = "/out/flag"
			c.Opts.Output = strings.Join(s, ",")

			return c
		})
		g.add(func() *Case {
			c := in(lines(sample...))
			c.Opts.RawDelim = "|"
			c.Opts.Raw = "/out/flag"
			c.Opts.PG = "/out/o.sql"
			c.Opts.Output = strings.Join(s, ",")

			return c
		})
	})
}

func checkConfig(x *Ctx, o *Obs) string {
	if !o.ok() {
		return "the run ended with " + o.status() + logTail(o)
	}

	c := x.c

	if n := c.Aux["default"]; n != "" {
		cc := *c
		cc.Opts.CSV = n
		c = &cc
	}

	if d := cmpAll(c, o, x.exp(), cmpOpt{fold: true}); d != "" {
		if c.Tag != "" {
			d = c.Tag + ": " + d
		}

		return d
	}

	// Nothing else is written.
	csvF, rawF, sqliteF, pgF := c.Opts.outputs()
	want := map[string]bool{}

	for _, f := range []string{csvF, rawF, pgF} {
		if f == "" {
			continue
		}

		want[f] = true

		for _, dst := range c.Cfg.Transpose {
			want[trName(f, dst)] = true
		}
	}

	want[sqliteF] = true

	for _, f := range o.fileNames() {
		if !want[f] {
			return "unexpected output " + f
		}
	}

	return ""
}

// --- C27 ---

type ctab struct {
	head []string
	rows [][]string
}

func (t ctab) text() string {
	var b bytes.Buffer

	w := csv.NewWriter(&b)
	_ = w.Write(t.head)
	_ = w.WriteAll(t.rows)

	return b.String()
}

func allTables(cols [][]string, cells []string, rows int, f func(t ctab)) {
	for _, h := range cols {
		var row [][]string

		seqs(cells, len(h), func(r []string) { row = append(row, r) })

		f(ctab{head: h})
		upTo(row, rows, func(rr [][]string) { f(ctab{head: h, rows: rr}) })
	}
}

func casesEquals(g *Gen) {
	add := func(a, b string, f func(c *Case)) {
		g.add(func() *Case {
			c := &Case{Entry: "csvequals", Files: []File{{"/in/1.csv", a}, {"/in/2.csv", b}}}
			if f != nil {
				f(c)
			}

			return c
		})
	}

	pairs := func(tt []string) {
		for _, a := range tt {
			for _, b := range tt {
				add(a, b, nil)
			}
		}
	}

	depth := 2
	if g.thorough {
		depth = 3
	}

	var tt []string

	allTables([][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}}, []string{"1", "2"}, depth, func(t ctab) { tt = append(tt, t.text()) })
	pairs(tt)

	tt = nil
	allTables([][]string{{"a", "b", "c"}, {"c", "a", "b"}, {"b", "a", "c"}, {"a", "b", "d"}}, []string{"x", ""}, depth-1, func(t ctab) { tt = append(tt, t.text()) })
	pairs(tt)

	// Names that repeat.
	tt = nil
	allTables([][]string{{"a", "a"}, {"a"}, {"a", "b"}, {"a", "a", "b"}, {"a", "b", "a"}, {"a", "b", "b"}, {"a", "a", "a"}, {"", ""}, {"A", "a"}}, []string{"1", "2"}, 1, func(t ctab) { tt = append(tt, t.text()) })
	pairs(tt)

	// Cells, quoted or not.
	cells := []string{
		"", " ", "1", "1.0", "01", "x", "X", "é", "a,b", `q"q`, "l\nl", "l\r\nl", "\n", "\\N", "NULL", "\"", "'", "x ", "\t", "\x00", "\xff", "a\nb\nc", "#",
	}

	tt = nil

	for _, s := range cells {
		q := `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		tt = append(tt, "h,k\n"+q+",1\n", "h,k\n1,"+q+"\n", "k,h\n1,"+q, "\"h\",\"k\"\r\n"+q+",\"1\"\r\n", q+",k\n1,2\n")

		if !strings.ContainsAny(s, ",\"\r\n") {
			tt = append(tt, "h,k\n"+s+",1\n", "k,h\n1,"+s)
		}
	}

	pairs(tt)

	// Shapes.
	shapes := []string{
		"", "\n", "\n\n", "a", "a\n", "a\n1", "a\n1\n", "a\n\n1\n", "a\r\n1\r\n", "a\n1\n\n", "\na\n1\n", "a,b\n1,2\n", "a,b\n1\n", "a\n1,2\n", "a,b\n1,2,3\n", "a,b\n1,2\n3\n", "b,a\n2,1\n", "a,b\n1,2\n1,2\n", "a,b\n2,1\n",
		"a,b\n\"1,2\n", "a,b\n1,\"2\"x\n", "a,b\n1,x\"2\n", "a\n\"\"\n", "\"\"\n", ",\n,\n", ",\n1,\n", "a,b,\n1,2,\n", "a,b\n1,2\n\"", "\xef\xbb\xbfa\n1\n", "a;b\n1;2\n",
	}
	pairs(shapes)

	// Long files that differ at one place only, read in pieces.
	for _, n := range []int{1, 50, 700} {
		var rows [][]string

		for i := 0; i < n; i++ {
			rows = append(rows, []string{"v" + num(i), num(i * i), strings.Repeat("z", i%50)})
		}

		base := ctab{head: []string{"a", "b", "c"}, rows: rows}.text()

		for _, at := range []int{0, n / 2, n - 1} {
			for col := 0; col < 3; col++ {
				for _, how := range []int{0, 1, 2, 3} {
					m := append([][]string(nil), rows...)
					m[at] = append([]string(nil), m[at]...)

					switch how {
					case 0:
						m[at][col] += "!"
					case 1:
						m = append(m[:at], m[at+1:]...)
					case 2:
						m = append(m[:at:at], append([][]string{rows[at]}, m[at:]...)...)
					case 3:
					}

					mt := ctab{head: []string{"a", "b", "c"}, rows: m}.text()
					for _, ch := range [][]int{nil, {1}, {7, 4096}} {
						if n > 50 && len(ch) == 1 {
							continue
						}

						add(base, mt, func(c *Case) { c.Chunk = ch; c.MaxStep = 1 << 30 })
						add(mt, base, func(c *Case) { c.Chunk = ch; c.MaxStep = 1 << 30 })
					}
				}
			}
		}
	}

	// Every schedule of its goroutines up to one preemption, every fault of reading.
	for _, p := range [][2]string{{"a,b\n1,2\n", "b,a\n2,1\n"}, {"a,b\n1,2\n", "b,a\n1,1\n"}} {
		add(p[0], p[1], func(c *Case) { c.Mode, c.Bound = "pb", 1 })
	}
}

// A cell by cell comparison.
func csvSame(a, b string) bool {
	parse := func(s string) (*ctab, bool) {
		s = strings.ReplaceAll(s, "\r\n", "\n")
		if s != "" && !strings.HasSuffix(s, "\n") {
			s = strings.TrimSuffix(s, "\r") + "\n"
		}

		var t *ctab

		for s != "" {
			if s[0] == '\n' {
				s = s[1:]
				continue
			}

			rec, n, err := csvRecord(s)
			if err != nil {
				return nil, false
			}

			s = s[n:]

			if t == nil {
				t = &ctab{head: rec}
				continue
			}

			if len(rec) != len(t.head) {
				return nil, false
			}

			t.rows = append(t.rows, rec)
		}

		return t, true
	}

	x, ok := parse(a)
	if !ok {
		return false
	}

	y, ok := parse(b)
	if !ok {
		return false
	}

	if x == nil || y == nil {
		return x == nil && y == nil
	}

	if len(x.head) != len(y.head) || len(x.rows) != len(y.rows) {
		return false
	}

	// The n-th column of a name goes with the n-th column of that name.
	to := make([]int, len(x.head))
	used := map[int]bool{}

	for i, n := range x.head {
		to[i] = -1

		for j, m := range y.head {
			if m == n && !used[j] {
				used[j] = true
				to[i] = j

				break
			}
		}

		if to[i] < 0 {
			return false
		}
	}

	for r := range x.rows {
		for i, v := range x.rows[r] {
			if y.rows[r][to[i]] != v {
				return false
			}
		}
	}

	return true
}

func checkEquals(x *Ctx, o *Obs) string {
	want := csvSame(x.c.Files[0].Data, x.c.Files[1].Data)

	if !o.ok() && !o.failed() {
		return "the run ended with " + o.status()
	}

	if want && !o.ok() {
		return "equal files are reported as different: " + o.status() + logTail(o)
	}

	if !want && o.ok() {
		return "different files are reported as equal"
	}

	return ""
}
