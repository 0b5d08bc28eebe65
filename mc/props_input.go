package main

import (
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/klauspost/compress/zstd"
	"github.com/vearutop/flatjsonl/zzverif/vos"
	"github.com/vearutop/flatjsonl/zzverif/vsql"
)

// decode decompresses by the reference implementations.
func decode(name, data string) (string, bool) {
	switch {
	case strings.HasSuffix(name, ".gz"):
		r, err := gzip.NewReader(strings.NewReader(data))
		if err != nil {
			return "", false
		}

		b, err := io.ReadAll(r)

		return string(b), err == nil
	case strings.HasSuffix(name, ".zst"):
		r, err := zstd.NewReader(strings.NewReader(data), zstd.WithDecoderConcurrency(1), zstd.WithDecoderMaxMemory(64<<20))
		if err != nil {
			return "", false
		}

		defer r.Close()

		b, err := io.ReadAll(r)

		return string(b), err == nil
	}

	return data, true
}

type encoding struct {
	ext string
	f   func(s string) string
}

var encodings = []encoding{
	{".log", func(s string) string { return s }},
	{".gz", func(s string) string { return gz(s) }},
	{".zst", func(s string) string { return zst(s) }},
	{".gz", func(s string) string { return gz(s[:len(s)/2], s[len(s)/2:]) }},
	{".zst", func(s string) string { return zst(s[:len(s)/3], s[len(s)/3:]) }},
}

type option struct {
	name string
	f    func(c *Case)
}

var inputOpts = []option{
	{"csv", func(c *Case) { c.Opts.CSV = "/out/o.csv" }},
	{"all", func(c *Case) { c.allOut() }},
	{"single", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.GetKey = ".a" }},
	{"include", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Cfg.IncludeKeys = []string{".a", ".b"} }},
	{"conc", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.Concurrency = 3 }},
	{"keys", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.MaxLinesKeys = 100000 }},
	{"info", func(c *Case) { c.Opts.ShowFlat = true }},
	{"gzout", func(c *Case) { c.Opts.CSV = "/out/o.csv.gz"; c.Opts.Raw = "/out/o.raw.zst" }},
}

func casesInputFaults(g *Gen) {
	small := lines(`{"a":1,"b":"x"}`, `{"a":2,"c":{"d":"y"}}`, `{"a":3,"b":null}`)
	mid, huge := "", ""

	for i := 0; i < 30; i++ {
		mid += fmt.Sprintf(`{"a":%d,"b":"v%d","c":{"d":[%d,"%s"]}}`+"\n", i, i*7919, i, rep(string(rune('a'+i%26)), i))
	}

	for i := 0; i < 2500; i++ {
		huge += fmt.Sprintf(`{"a":%d,"b":"v%d"}`+"\n", i*i, i*7919)
	}

	readFaults(g, small, mid, huge)
	severalInputs(g, small, mid)
	damagedInputs(g, small, mid)
	longLines(g)
	badConfigs(g, small)

	// Failing reads under the schedules of several workers.
	for _, o := range inputOpts[:4] {
		for _, e := range encodings[:3] {
			for nth := 0; nth <= 12; nth++ {
				g.add(func() *Case {
					c := &Case{Files: []File{{"/in/a" + e.ext, e.f(small)}}, Chunk: []int{len(e.f(small))/4 + 1}}
					o.f(c)
					c.Opts.Concurrency = 2
					c.Faults = []vos.Fault{{Path: "/in/a" + e.ext, Op: "read", Nth: nth, Partial: 3 * (nth % 2)}}
					c.Mode, c.Bound = "db", 1

					return c.set("plain:/in/a"+e.ext, small)
				})
			}
		}
	}
}

// readFaults: operations that fail.
func readFaults(g *Gen, small, mid, huge string) {
	srcs := []struct {
		text  string
		chunk []int
		max   int
	}{{small, nil, 4}, {small, []int{7}, 24}, {mid, []int{200}, 30}, {huge, nil, 16}}

	for _, e := range encodings {
		for _, s := range srcs {
			enc := e.f(s.text)

			for _, o := range inputOpts {
				mk := func(f vos.Fault) {
					g.add(func() *Case {
						c := &Case{Files: []File{{"/in/a" + e.ext, enc}}, Chunk: s.chunk, Faults: []vos.Fault{f}, Free: len(s.text) > 50000}
						o.f(c)

						return c.set("plain:/in/a"+e.ext, s.text)
					})
				}

				p := "/in/a" + e.ext

				for nth := 0; nth <= 2; nth++ {
					mk(vos.Fault{Path: p, Op: "open", Nth: nth})
					mk(vos.Fault{Path: p, Op: "stat", Nth: nth})
				}

				for nth := 0; nth <= s.max; nth++ {
					for _, part := range []int{0, 3} {
						for _, sticky := range []bool{false, true} {
							if sticky && part != 0 && !g.thorough {
								continue
							}

							mk(vos.Fault{Path: p, Op: "read", Nth: nth, Partial: part, Sticky: sticky})
						}
					}
				}
			}
		}
	}
}

// severalInputs: one of several is bad.
func severalInputs(g *Gen, small, mid string) {
	names := []string{"/in/a.log", "/in/b.gz", "/in/c.zst"}
	data := []string{small, gz(small), zst(mid)}
	plain := []string{small, small, mid}

	for _, o := range inputOpts {
		for bad := range names {
			mk := func(f func(c *Case)) {
				g.add(func() *Case {
					c := &Case{Chunk: []int{40}}

					for i, n := range names {
						c.Files = append(c.Files, File{n, data[i]})
						c.set("plain:"+n, plain[i])
					}

					o.f(c)
					f(c)

					return c
				})
			}

			for nth := 0; nth <= 12; nth++ {
				mk(func(c *Case) { c.Faults = []vos.Fault{{Path: names[bad], Op: "read", Nth: nth}} })
			}

			for nth := 0; nth <= 2; nth++ {
				mk(func(c *Case) { c.Faults = []vos.Fault{{Path: names[bad], Op: "open", Nth: nth}} })
			}

			for cut := 1; cut < len(data[bad]); cut += 3 {
				if bad > 0 {
					mk(func(c *Case) { c.Files[bad].Data = c.Files[bad].Data[:cut]; c.Tag = "damaged" })
				}
			}

			mk(func(c *Case) { c.Files[bad].Data = ""; c.Tag = "refused" })
			mk(func(c *Case) { c.set("missing", names[bad]); c.Tag = "refused" })
		}
	}
}

// damagedInputs: compressed inputs cut or damaged at every byte.
func damagedInputs(g *Gen, small, mid string) {
	for _, e := range encodings[1:] {
		for _, text := range []string{small, mid} {
			enc := e.f(text)

			for i, o := range inputOpts {
				if i > 0 && text == mid && !g.thorough {
					continue
				}

				mk := func(d string) {
					g.add(func() *Case {
						c := &Case{Files: []File{{"/in/a" + e.ext, d}}, Tag: "damaged"}
						o.f(c)

						return c.set("plain:/in/a"+e.ext, text)
					})
				}

				for cut := 0; cut < len(enc); cut++ {
					mk(enc[:cut])
				}

				for at := 0; at < len(enc); at++ {
					for _, x := range []byte{0xff, 1, 2, 4, 8, 16, 32, 64, 128} {
						if x != 0xff && !(g.thorough || i == 0 && text == small) {
							continue
						}

						mk(enc[:at] + string([]byte{enc[at] ^ x}) + enc[at+1:])
					}

					// A byte lost, a byte too many.
					if i == 0 {
						mk(enc[:at] + enc[at+1:])
						mk(enc[:at] + "\x55" + enc[at:])
					}
				}

				mk(enc + "x")
				mk(enc + "garbage after the end of the data")
				mk(text)
				mk("x" + enc)
			}
		}
	}
}

func longLines(g *Gen) {
	for _, bs := range []int{64, 100, 4096} {
		for d := -3; d <= 5; d++ {
			for pos := 0; pos < 3; pos++ {
				for _, nl := range []bool{true, false} {
					for _, o := range inputOpts {
						g.add(func() *Case {
							ls := []string{`{"a":1,"b":"x"}`, `{"a":2}`, `{"a":3,"b":"z"}`}
							ls[pos] = `{"a":9,"b":"` + rep("w", bs+d-14) + `"}`
							c := in(strings.Join(ls, "\n"))

							if nl {
								c.Files[0].Data += "\n"
							}

							c.Opts.BufSize = bs
							o.f(c)
							c.Tag = "long"

							return c.set("over", itoa(d))
						})
					}
				}
			}
		}

		for _, d := range []int{1, 50, 5000} {
			for _, text := range []string{rep("w", bs+d), rep("w", bs+d) + "\n", rep(" ", bs+d) + "\n{\"a\":1}\n", "{\"a\":1}\n" + rep("\x00", bs+d)} {
				for _, o := range inputOpts {
					g.add(func() *Case {
						c := in(text)
						c.Opts.BufSize = bs
						o.f(c)
						c.Tag = "long"

						return c.set("over", itoa(d))
					})
				}
			}
		}
	}
}

var badJSON = []string{
	`{`, `{"includeKeys":}`, `{"includeKeys":"x"}`, `{"replaceKeys":[1]}`, `[1]`, `"x"`, `1`, `{"includeKeys":[".a"`, `{"includeKeysRegex":["("]}`,
	`{"excludeKeysRegex":["("]}`, `{"replaceKeysRegex":{"(":"x"}}`, `{"extractValuesRegex":{"(":"URL"}}`, `{"includeKeysRegex":[".a","[z-a]"]}`,
	`{"excludeKeysRegex":["^a**$"]}`, `{"replaceKeysRegex":{"^(?P<x$":"x"}}`, `{"excludeKeysRegex":[""]}`, `{"includeKeysRegex":[""]}`,
	`{"replaceKeysRegex":{"":"x"}}`, `{"matchLinePrefix":"("}`, `{"transpose":[".a"]}`, `{"parseTime":"x"}`, `{"concatDelimiter":{}}`,
	`{"keepJSON":{"a":1}}`, `{"allowCardinality":[[1]]}`, `{"outputTZ":[]}`,
}

var badYAML = []string{
	"includeKeys: [", "includeKeys: {a: 1}\n", "\tx: 1", "a: b: c", "replaceKeys: [1, 2]\n", "includeKeysRegex:\n  - \"(\"\n", "- 1\n- 2\n",
	"matchLinePrefix: '('\n", "excludeKeysRegex: ['[z-a]']\n", "extractValuesRegex:\n  '(': URL\n",
}

func badConfigs(g *Gen, small string) {
	for _, o := range inputOpts {
		mk := func(f func(c *Case)) {
			g.add(func() *Case {
				c := in(small)
				o.f(c)
				c.Tag = "refused"
				f(c)

				return c
			})
		}

		for _, b := range badJSON {
			mk(func(c *Case) { c.Opts.ConfigFile = b })

			// In YAML a missing value is null.
			if b == `{"includeKeys":}` {
				continue
			}

			for _, fn := range []string{"/in/cfg.json", "/in/cfg.json5", "/in/cfg.yaml"} {
				mk(func(c *Case) { c.Opts.ConfigFile, c.Extra = fn, []File{{fn, b}} })
			}
		}

		for _, b := range badYAML {
			mk(func(c *Case) { c.Opts.ConfigFile, c.Extra = "/in/cfg.yaml", []File{{"/in/cfg.yaml", b}} })
		}

		mk(func(c *Case) { c.Opts.ConfigFile = "/in/none.yaml" })
		mk(func(c *Case) {
			c.Opts.ConfigFile, c.Extra = "/in/cfg.yaml", []File{{"/in/cfg.yaml", "includeKeys: ['.a']\n"}}
			c.Faults = []vos.Fault{{Path: "/in/cfg.yaml", Op: "readfile"}}
		})
		mk(func(c *Case) { c.Opts.MatchLinePrefix = "(" })
	}
}

func checkInputFaults(x *Ctx, o *Obs) string {
	c := x.c
	opt := cmpOpt{fold: sqliteOf(c) != "", anyOrder: c.Opts.Concurrency > 1}

	orderly := func() string {
		if o.failed() {
			return ""
		}

		return "the run did not report the failure in an orderly way: " + o.status() + logTail(o)
	}

	switch c.Tag {
	case "refused":
		if o.ok() {
			return "the run claims success"
		}

		if n := o.fileNames(); len(n) > 0 {
			return "the run was refused after writing " + strings.Join(n, ", ")
		}

		if db := sqliteOf(c); db != "" {
			if _, err := os.Stat(vsql.Path(db)); err == nil {
				return "the run was refused after writing the database"
			}
		}

		return orderly()
	case "damaged":
		if !o.ok() {
			return orderly()
		}

		// Success means that everything was there after all.
		y := &Ctx{c: c.clone(), memo: map[string]string{}}

		lost := false

		for _, f := range c.Files {
			if text, ok := decode(f.Name, f.Data); ok {
				y.c.Aux["plain:"+f.Name] = text
			} else {
				lost = true
			}
		}

		msg := stdCheck(y, o, opt)
		if msg != "" && lost {
			return "the run claims success for a damaged input that was not read to its end: " + msg
		}

		return msg
	case "long":
		if !o.ok() {
			if d := c.Aux["over"]; d[0] == '-' && d != "-1" {
				return "the run failed though no line exceeds the buffer: " + o.status() + logTail(o)
			}

			return orderly()
		}

		if msg := stdCheck(x, o, opt); msg != "" {
			return "the run claims success for a line longer than the buffer: " + msg
		}

		return ""
	}

	if o.Hits == 0 {
		return stdCheck(x, o, opt)
	}

	// A read that delivers what was asked for together with an error which goes away loses nothing.
	if f := c.Faults[0]; o.ok() && f.Op == "read" && f.Partial > 0 && !f.Sticky {
		return stdCheck(x, o, opt)
	}

	if o.ok() {
		return fmt.Sprintf("the run claims success though the %s of %s failed", c.Faults[0].Op, c.Faults[0].Path)
	}

	return orderly()
}
