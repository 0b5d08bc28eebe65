package main

import (
	"encoding/json"
	"flag"
	"io"
	"os"
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	"github.com/vearutop/flatjsonl/zzverif/rt"
	"github.com/vearutop/flatjsonl/zzverif/vlog"
	"github.com/vearutop/flatjsonl/zzverif/vos"
	"github.com/vearutop/flatjsonl/zzverif/vsync"
)

func init() {
	register(&Prop{
		ID: "C33", Level: "model_checking",
		Rule: "an execution is one run of processors made through the Go API (or of the tool with repeated input); every output of every processor is compared with the reference " +
			"for a file of the same content",
		Note:  "readers deliver their data in the enumerated chunk sizes and ways to report the end; two processors of a process run one after the other and at once",
		Cases: casesLib, Check: checkLib,
	})
}

// Lib is how processors are used through the Go API.
type Lib struct {
	Readers  string `json:",omitempty"` // one letter per input: r reader, f file
	Steps    bool   `json:",omitempty"` // PrepareKeys and WriteOutput instead of Process
	Chunk    int    `json:",omitempty"` // bytes per read
	EOF      string `json:",omitempty"` // "data": the end is reported together with the last bytes, "zero": empty reads in between
	Second   *Case  `json:",omitempty"` // another processor
	Together bool   `json:",omitempty"` // at once
	Shared   bool   `json:",omitempty"` // both processors are made of one configuration value
}

// memReader is an input of the library.
type memReader struct {
	data  []byte
	pos   int
	comp  string
	lib   Lib
	empty bool
	pass  func()
}

func (r *memReader) Size() int64         { return int64(len(r.data)) }
func (r *memReader) Compression() string { return r.comp }

func (r *memReader) Reset() {
	r.pos = 0
	if r.pass != nil {
		r.pass()
	}
}

//go:norace
func (r *memReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}

	if r.lib.EOF == "zero" {
		r.empty = !r.empty
		if r.empty {
			return 0, nil
		}
	}

	n := len(p)
	if c := r.lib.Chunk; c > 0 && c < n {
		n = c
	}

	n = copy(p[:n], r.data[r.pos:])
	r.pos += n

	if r.lib.EOF == "data" && r.pos >= len(r.data) {
		return n, io.EOF
	}

	return n, nil
}

// libConfig makes the configuration, lists have room for more.
func libConfig(c *Case) (cfg flatjsonl.Config) {
	b, _ := json.Marshal(c.Cfg)
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}

	for _, l := range configLists(&cfg) {
		if *l != nil {
			*l = append(make([]string, 0, len(*l)+3), *l...)
		}
	}

	return cfg
}

func configLists(cfg *flatjsonl.Config) []*[]string {
	return []*[]string{&cfg.IncludeKeys, &cfg.IncludeKeysRegex, &cfg.ExcludeKeys, &cfg.ExcludeKeysRegex, &cfg.KeepJSON, &cfg.AllowCardinality}
}

// libProcessor makes a processor for the case.
func libProcessor(c *Case, cfg flatjsonl.Config, first bool) *flatjsonl.Processor {
	var lib Lib
	if c.Lib != nil {
		lib = *c.Lib
	}

	flag.CommandLine = flag.NewFlagSet("flatjsonl", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)

	os.Args = append([]string{"flatjsonl"}, c.args()...)
	vos.Args = os.Args

	f := flatjsonl.Flags{}
	f.Register()
	f.Parse()

	var inputs []flatjsonl.Input

	passes := 0

	for i, in := range c.Files {
		if i >= len(lib.Readers) || lib.Readers[i] == 'f' {
			inputs = append(inputs, flatjsonl.Input{FileName: in.Name})
			continue
		}

		r := &memReader{data: []byte(in.Data), lib: lib}

		switch {
		case strings.HasSuffix(in.Name, ".gz"):
			r.comp = "gzip"
		case strings.HasSuffix(in.Name, ".zst"):
			r.comp = "zst"
		}

		if i == 0 && first {
			r.pass = func() {
				passes++
				rt.SetPhase(passes)
			}
		}

		inputs = append(inputs, flatjsonl.Input{Reader: r})
	}

	p, err := flatjsonl.NewProcessor(f, cfg, inputs...)
	if err != nil {
		vlog.Fatal(err)
	}

	return p
}

func libRun(p *flatjsonl.Processor, steps bool) error {
	if !steps {
		return p.Process()
	}

	if err := p.PrepareKeys(); err != nil {
		return err
	}

	return p.WriteOutput()
}

// configText shows the configuration, with the room behind its lists.
func configText(cfg flatjsonl.Config) string {
	for _, l := range configLists(&cfg) {
		*l = (*l)[:cap(*l)]
	}

	b, _ := json.Marshal(cfg)

	return string(b)
}

// libMain is the program that uses the library.
func libMain(c *Case) func() {
	return func() {
		cfg := libConfig(c)
		cfg2 := cfg
		was := configText(cfg)

		defer func() {
			if is := configText(cfg); is != was {
				vlog.Fatal("configuration of the caller was " + was + ", now is " + is)
			}
		}()

		if c.Lib.Second == nil {
			held := holdings(c)
			err := libRun(libProcessor(c, cfg, true), c.Lib.Steps)

			held(err)

			if err != nil {
				vlog.Fatal(err)
			}

			return
		}

		if !c.Lib.Shared {
			cfg2 = libConfig(c.Lib.Second)
		}

		p1, p2 := libProcessor(c, cfg, true), libProcessor(c.Lib.Second, cfg2, false)

		if !c.Lib.Together {
			for _, p := range []*flatjsonl.Processor{p2, p1} {
				if err := libRun(p, c.Lib.Steps); err != nil {
					vlog.Fatal(err)
				}
			}

			return
		}

		var (
			wg   vsync.WaitGroup
			errs [2]error
		)

		wg.Add(2)
		rt.Go(func() { errs[0] = libRun(p1, c.Lib.Steps); wg.Done() })
		rt.Go(func() { errs[1] = libRun(p2, c.Lib.Steps); wg.Done() })
		wg.Wait()

		for _, err := range errs {
			if err != nil {
				vlog.Fatal(err)
			}
		}
	}
}

func checkLib(x *Ctx, o *Obs) string {
	opt := cmpOpt{}
	// Discovery order depends on the schedule.
	if x.c.Mode != "" && x.c.Window != 2 && x.c.Opts.Concurrency > 1 {
		opt.anyOrder, opt.fold = true, true
	}

	if msg := stdCheck(x, o, opt); msg != "" {
		return msg
	}

	if x.c.Lib == nil || x.c.Lib.Second == nil {
		return ""
	}

	if msg := cmpAll(x.c.Lib.Second, o, expect(x.c.Lib.Second), opt); msg != "" {
		return "the other processor: " + msg
	}

	return ""
}

// another is a processor that runs in the same process.
func another(lines []string, conc int, setup func(c *Case)) *Case {
	c := &Case{Files: []File{{"/in/z.log", strings.Join(lines, "\n") + "\n"}}}
	c.Opts.Concurrency = conc
	setup(c)

	move := func(s *string) {
		if *s != "" {
			*s = strings.Replace(*s, "/out/o", "/out/z", 1)
		}
	}

	move(&c.Opts.CSV)
	move(&c.Opts.Raw)
	move(&c.Opts.PG)
	c.Opts.SQLite = "" // The environment observes one database.

	return c
}

func casesLib(g *Gen) {
	scs := rowScenarios()

	mk := func(s scenario) *Case {
		c := csvCase(strings.Join(s.lines, "\n") + "\n")
		s.setup(c)
		c.Entry = "lib"

		return c
	}

	// One processor: what the readers are like.
	for _, s := range scs {
		for _, e := range encodings {
			for _, lib := range []Lib{
				{Readers: "f"}, {Readers: "r"}, {Readers: "r", Chunk: 1}, {Readers: "r", Chunk: 7, EOF: "data"}, {Readers: "r", EOF: "data"},
				{Readers: "r", Chunk: 5, EOF: "zero"}, {Readers: "r", Steps: true}, {Readers: "f", Steps: true},
			} {
				for _, conc := range []int{1, 3} {
					g.add(func() *Case {
						c := mk(s)
						l := lib
						c.Lib = &l
						c.Opts.Concurrency = conc
						c.Files[0].Name = "/in/a" + e.ext
						c.set("plain:/in/a"+e.ext, c.Files[0].Data)
						c.Files[0].Data = e.f(c.Files[0].Data)

						return c
					})
				}
			}
		}
	}

	// Several inputs of a processor.
	for _, s := range scs {
		for _, kinds := range []string{"rr", "rf", "fr", "ff", "rrr", "frf"} {
			for _, eol := range []string{"\n", ""} {
				for _, win := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 2}} {
					g.add(func() *Case {
						c := mk(s)
						c.Lib = &Lib{Readers: kinds}
						c.Opts.OffsetLines, c.Opts.MaxLines = win[0], win[1]
						c.Files = nil

						for i := range kinds {
							k := (i + 1) % len(s.lines)
							c.Files = append(c.Files, File{"/in/" + string(rune('a'+i)) + ".log", strings.Join(append(append([]string{}, s.lines[k:]...), s.lines[:k]...), "\n") + eol})
						}

						return c
					})
				}
			}
		}
	}

	// Repeated input.
	for _, s := range scs {
		for _, more := range []bool{false, true} {
			text := strings.Join(s.lines, "\n") + "\n"

			for _, size := range []int{1, len(text) - 1, len(text), len(text) + 1, 3 * len(text), 3*len(text) + 1, 40 * len(text)} {
				for _, conc := range []int{1, 2} {
					g.add(func() *Case {
						c := mk(s)
						c.Entry = ""
						c.Opts.LoopSize = size
						c.Opts.Concurrency = conc
						c.set("plain:/in/a.log", rep(text, (size+len(text)-1)/len(text)))

						if more {
							c.Files = append(c.Files, File{"/in/b.log", text})
						}

						return c
					})
				}
			}
		}
	}

	// Two processors.
	for i, s := range scs {
		for j, t := range scs {
			for _, tog := range []bool{false, true} {
				if !g.thorough && (i+j)%3 != 0 {
					continue
				}

				g.add(func() *Case {
					c := mk(s)
					c.Lib = &Lib{Readers: "r", Second: another(t.lines, 1, func(c *Case) { c.Opts.CSV = "/out/o.csv"; t.setup(c) }), Together: tog}

					return c
				})
			}
		}
	}

	for i, s := range scs {
		for d := range len(scs) {
			if d != 1 && d != 4 && !g.thorough {
				continue
			}

			t := scs[(i+d)%len(scs)]

			g.add(func() *Case {
				c := mk(s)
				c.Lib = &Lib{Readers: "r", Second: another(t.lines[:min(2, len(t.lines))], 1, func(c *Case) { c.Opts.CSV = "/out/o.csv"; t.setup(c) }), Together: true}
				c.Files[0].Data = strings.Join(s.lines[:min(2, len(s.lines))], "\n") + "\n"
				c.Mode, c.Bound = "db", 1

				if g.thorough {
					c.Bound = 2
				}

				return c
			})
		}
	}

	// One processor with readers under the schedules of the workers.
	for _, s := range scs {
		for window := 1; window <= 2; window++ {
			g.add(func() *Case {
				c := mk(s)
				c.Lib = &Lib{Readers: "r", Steps: window == 2}
				c.Opts.Concurrency = 2
				c.Mode, c.Window, c.Bound = "db", window, 1

				if g.thorough {
					c.Bound = 2
				}

				return c
			})
			g.add(func() *Case {
				c := mk(s)
				c.Lib = &Lib{Readers: "r"}
				c.Opts.Concurrency = 2
				c.Mode, c.Window, c.Bound, c.Stmts = "db", window, 1, true

				return c
			})
		}
	}

	// Processors with different settings.
	for _, s := range twoSettings() {
		none := func(*Case) {}

		for i, p := range [][2]func(*Case){{s[0], s[1]}, {s[1], s[0]}, {s[0], none}, {none, s[0]}, {s[1], none}, {none, s[1]}} {
			for _, mode := range []string{"one after another", "at once", "db", "db2"} {
				if (mode == "db2" || mode == "db" && i > 0) && !g.thorough {
					continue
				}

				g.add(func() *Case {
					ls := settingLines

					if mode[0] == 'd' {
						ls = ls[:2]
					}

					outs := func(c *Case) {
						c.Opts.CSV, c.Opts.Raw, c.Opts.PG = "/out/o.csv", "/out/o.raw", "/out/o.sql"
						if mode[0] != 'd' {
							c.Opts.SQLite = "/out/o.sqlite"
						}
					}

					c := csvCase(lines(ls...))
					c.Entry = "lib"
					c.Opts.Concurrency = 1
					outs(c)
					p[0](c)

					c.Lib = &Lib{Readers: "r", Second: another(ls, 1, func(d *Case) { outs(d); p[1](d) }), Together: mode != "one after another"}

					if mode[0] == 'd' {
						c.Mode, c.Bound = "db", 1
					}

					if mode == "db2" {
						c.Bound = 2
					}

					return c
				})
			}
		}
	}

	// Processors made of one configuration.
	for _, s := range sharedConfigs(scs) {
		for _, mode := range []string{"one after another", "at once", "db"} {
			g.add(func() *Case {
				c := csvCase(strings.Join(s.lines, "\n") + "\n")
				c.Opts.Concurrency = 1
				s.setup(c)
				s.first(c)
				c.Entry = "lib"

				second := another(s.other, 1, func(d *Case) { d.Opts.CSV = "/out/o.csv"; s.setup(d); s.second(d) })
				c.Lib = &Lib{Readers: "r", Second: second, Shared: true, Together: mode != "one after another"}

				if mode == "db" {
					c.Mode, c.Bound = "db", 1
				}

				return c
			})
		}
	}
}

type sharedConfig struct {
	lines, other         []string
	setup, first, second func(c *Case)
}

// sharedConfigs have different options and data for one configuration.
func sharedConfigs(scs []scenario) []sharedConfig {
	none := func(*Case) {}
	l1 := []string{`{"a":1,"b":"x","c":{"d":true},"h":{"p":1,"q":2,"r":3},"g":{"p":1}}`, `{"a":2,"b":"y","c":{"d":false},"h":{"s":1},"g":{"q":1}}`}
	l2 := []string{`{"b":"z","a":7,"c":{"d":null},"g":{"t":1,"u":2,"v":3},"h":{"t":1}}`, `{"b":"w","a":8,"c":{"d":[]},"g":{"w":5},"h":{"u":1}}`}

	var res []sharedConfig

	get := func(k string) func(*Case) { return func(c *Case) { c.Opts.GetKey = k } }

	for _, keys := range [][]string{nil, {".c.d"}, {".c.d", ".h.p"}} {
		for _, ks := range [][2]string{{".a", ".b"}, {".b", ".a"}, {".a", ""}, {"", ".b"}} {
			if keys == nil && (ks[0] == "" || ks[1] == "") {
				continue
			}

			res = append(res, sharedConfig{l1, l2, func(c *Case) { c.Cfg.IncludeKeys = append([]string{}, keys...) }, get(ks[0]), get(ks[1])})
		}
	}

	for _, keep := range [][]string{nil, {".c"}, {".c", ".b"}} {
		for _, allow := range [][]string{nil, {".h"}, {".g"}} {
			res = append(res, sharedConfig{l1, l2, func(c *Case) {
				c.Cfg.KeepJSON = append([]string{}, keep...)
				c.Cfg.AllowCardinality = append([]string{}, allow...)
				c.Opts.ChildrenLimit = ptr(2)
			}, none, none})
		}
	}

	for _, s := range scs {
		k := len(s.lines) / 2
		res = append(res, sharedConfig{s.lines, append(append([]string{}, s.lines[k:]...), s.lines[:k]...), s.setup, none, none})
	}

	return res
}

var settingLines = []string{
	`p 1 {"a":1,"b":"2021-01-02","t":"2022-03-04T05:06:07+02:00","B":"x","c":{"d":1,"e":[2,0]},"u":"http://h/p?q=1","j":"{\"k\":1}","z":0,"s":"abcdef"}`,
	`q 2 {"b":"2021-05-06","a":0,"t":"2022-03-04T05:06:07Z","c":{"e":[3,4,5],"d":9},"z":0,"s":"gh","A":2,"u":"//o:1","j":"[7]"}`,
	`{"s":null,"u":"none","j":"","c":{"d":null,"f":true}}`,
}

// twoSettings are two settings of one option each.
func twoSettings() [][2]func(*Case) {
	type f = func(*Case)

	var r [][2]f

	add := func(a, b f) { r = append(r, [2]f{a, b}) }
	dict := func(get func(*Case) *map[string]string, a, b map[string]string) {
		add(func(c *Case) { *get(c) = a }, func(c *Case) { *get(c) = b })
	}
	list := func(get func(*Case) *[]string, a, b []string) {
		add(func(c *Case) { *get(c) = a }, func(c *Case) { *get(c) = b })
	}
	num := func(get func(*Case) *int, a, b int) {
		add(func(c *Case) { *get(c) = a }, func(c *Case) { *get(c) = b })
	}
	text := func(get func(*Case) *string, a, b string) {
		add(func(c *Case) { *get(c) = a }, func(c *Case) { *get(c) = b })
	}
	flag := func(get func(*Case) *bool) { add(func(c *Case) { *get(c) = true }, func(c *Case) {}) }

	times := map[string]string{".t": "2006-01-02T15:04:05Z07:00", ".b": "2006-01-02"}
	text(func(c *Case) *string { c.Cfg.ParseTime = times; return &c.Cfg.OutputTimezone }, "Europe/Berlin", "America/New_York")
	text(func(c *Case) *string { c.Cfg.ParseTime = times; return &c.Cfg.OutputTimeFormat }, "2006-01-02 15:04", "Jan 2 2006")
	dict(func(c *Case) *map[string]string { return &c.Cfg.ParseTime }, map[string]string{".b": "2006-01-02"}, map[string]string{".b": "2006-02-01"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.ParseTime }, times, map[string]string{".t": "RAW"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.ReplaceKeys }, map[string]string{".a": "x", ".s": "y"}, map[string]string{".a": "y", ".u": "x"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.ReplaceKeysRegex }, map[string]string{"^[.](.)$": "x_${1}"}, map[string]string{"^[.](.)$": "y_${1}"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.ReplaceKeysRegex }, map[string]string{".c.*": "x_${1}"}, map[string]string{".c.*": "y"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.Transpose }, map[string]string{".c": "tt"}, map[string]string{".c": "uu"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.Transpose }, map[string]string{".c": "tt"}, map[string]string{".c.e": "tt"})
	dict(func(c *Case) *map[string]string { return &c.Cfg.ExtractValuesRegex }, map[string]string{"[.]u$": "URL"}, map[string]string{"[.]j$": "JSON"})
	list(func(c *Case) *[]string { return &c.Cfg.KeepJSON }, []string{".c"}, []string{".c.e"})
	list(func(c *Case) *[]string { return &c.Cfg.IncludeKeys }, []string{".a", ".c.d"}, []string{".s"})
	list(func(c *Case) *[]string { return &c.Cfg.IncludeKeys }, []string{"const:1", ".b"}, []string{".b", "const:2", "const:1"})
	list(func(c *Case) *[]string { return &c.Cfg.IncludeKeysRegex }, []string{"[.]c"}, []string{"[.][abs]"})
	list(func(c *Case) *[]string { return &c.Cfg.ExcludeKeys }, []string{".a", ".c.d"}, []string{".s"})
	list(func(c *Case) *[]string { return &c.Cfg.ExcludeKeysRegex }, []string{"[.]c"}, []string{"[.][abs]"})
	list(func(c *Case) *[]string { c.Opts.ChildrenLimit = ptr(2); return &c.Cfg.AllowCardinality }, []string{".c"}, []string{".c.e"})
	add(func(c *Case) { c.Opts.ChildrenLimit = ptr(1) }, func(c *Case) { c.Opts.ChildrenLimit = ptr(2) })
	text(func(c *Case) *string { return &c.Opts.MatchLinePrefix }, `([a-z]) (\d)`, `(?P<n>\d)`)
	text(func(c *Case) *string { return &c.Cfg.MatchLinePrefix }, `([a-z]) (\d)`, `(?P<n>\d)`)
	text(func(c *Case) *string { return &c.Opts.GetKey }, ".c.d", ".a")
	text(func(c *Case) *string { return &c.Opts.RawDelim }, "|", "--")
	text(func(c *Case) *string { return &c.Opts.SQLTable }, "first", "second")
	num(func(c *Case) *int { return &c.Opts.SQLMaxCols }, 3, 5)
	num(func(c *Case) *int { return &c.Opts.MaxLines }, 1, 2)
	num(func(c *Case) *int { return &c.Opts.OffsetLines }, 1, 2)
	num(func(c *Case) *int { return &c.Opts.MaxLinesKeys }, 1, 2)
	num(func(c *Case) *int { return &c.Opts.FieldLimit }, 3, 5)
	flag(func(c *Case) *bool { return &c.Opts.ReplaceKeys })
	flag(func(c *Case) *bool { return &c.Opts.ExtractStrings })
	flag(func(c *Case) *bool { return &c.Opts.SkipZeroCols })
	flag(func(c *Case) *bool { return &c.Opts.AddSequence })
	flag(func(c *Case) *bool { c.Opts.SQLite = ""; return &c.Opts.CaseSensitive }) // Names may clash in SQLite.

	concat := func(delim, key string) f {
		return func(c *Case) {
			c.Cfg.ConcatDelimiter = ptr(delim)
			c.Cfg.ReplaceKeys = map[string]string{".a": "x", key: "x"}
		}
	}
	add(concat("+", ".s"), concat("-", ".s"))
	add(concat("+", ".s"), concat("+", ".b"))

	return r
}
