package main

import (
	"fmt"
	"strings"

	"github.com/vearutop/flatjsonl/zzverif/vos"
)

func init() {
	register(&Prop{
		ID: "C22", Level: "fault_enumeration",
		Rule:  "an execution is one complete run in which one chosen operation on an output (creating, writing after any number of bytes, closing; opening the database, a statement, beginning or committing a transaction) fails, or none is left to fail",
		Note:  "faults are those an operating system reports to the process; the SQLite driver itself runs unmodified, on memory",
		Cases: casesOutputFaults, Check: checkOutputFaults,
	})
	register(&Prop{
		ID: "C23", Level: "fault_enumeration",
		Rule:  "an execution is one complete run over inputs of which one operation (opening, reading after any number of bytes) fails, or whose compressed bytes are cut or damaged at one place, or whose lines exceed the buffer, or with a configuration that is not valid",
		Note:  "damage of compressed inputs must be noticed by the checksums of gzip and zstd; a damage that still decompresses to the same text is no damage",
		Cases: casesInputFaults, Check: checkInputFaults,
	})
}

// outputSets are the outputs to be damaged: how to ask for them and the files they make.
func outputSets() []struct {
	name  string
	set   func(c *Case)
	files []string
	sql   bool
} {
	type os struct {
		name  string
		set   func(c *Case)
		files []string
		sql   bool
	}

	var r []os

	for _, z := range []string{"", ".gz", ".zst"} {
		r = append(r,
			os{"csv" + z, func(c *Case) { c.Opts.CSV = "/out/o.csv" + z }, []string{"/out/o.csv" + z}, false},
			os{"raw" + z, func(c *Case) { c.Opts.Raw, c.Opts.RawDelim = "/out/o.raw"+z, "|" }, []string{"/out/o.raw" + z}, false},
			os{"pg" + z, func(c *Case) { c.Opts.PG = "/out/o.sql" + z }, []string{"/out/o.sql" + z}, false},
			os{
				"csv-tr" + z, func(c *Case) { c.Opts.CSV = "/out/o.csv" + z; c.Cfg.Transpose = map[string]string{".t": "tt"} },
				[]string{"/out/o.csv" + z, trName("/out/o.csv"+z, "tt")}, false,
			},
			os{
				"raw-tr" + z, func(c *Case) {
					c.Opts.Raw, c.Opts.RawDelim = "/out/o.raw"+z, "|"
					c.Cfg.Transpose = map[string]string{".t": "tt"}
				},
				[]string{"/out/o.raw" + z, trName("/out/o.raw"+z, "tt")}, false,
			},
			os{
				"pg-tr" + z, func(c *Case) { c.Opts.PG = "/out/o.sql" + z; c.Cfg.Transpose = map[string]string{".t": "tt"} },
				[]string{"/out/o.sql" + z}, false,
			},
		)
	}

	r = append(r,
		os{"sqlite", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite" }, nil, true},
		os{"sqlite-tr", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite"; c.Cfg.Transpose = map[string]string{".t": "tt"} }, nil, true},
		os{"sqlite-parts", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite"; c.Opts.SQLMaxCols = 2 }, nil, true},
		os{"all", func(c *Case) { c.allOut() }, []string{"/out/o.csv", "/out/o.raw", "/out/o.sql"}, true},
		os{"list", func(c *Case) { c.Opts.Output = "/out/o.csv,/out/o.raw.gz" }, []string{"/out/o.csv", "/out/o.raw.gz"}, false},
	)

	out := make([]struct {
		name  string
		set   func(c *Case)
		files []string
		sql   bool
	}, len(r))
	for i, x := range r {
		out[i] = struct {
			name  string
			set   func(c *Case)
			files []string
			sql   bool
		}(x)
	}

	return out
}

func casesOutputFaults(g *Gen) {
	small := lines(`{"a":1,"b":"x","t":[1,2]}`, `{"a":2,"b":"y","t":[{"u":1}]}`, `{"a":3,"t":{"p":4}}`)

	// More than any buffer on the way, and not compressible to less.
	big := func(n int) string {
		var sb strings.Builder

		x := uint64(88172645463325252)

		for i := 0; i < n; i++ {
			var t strings.Builder

			for j := 0; j < 60; j++ {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				fmt.Fprintf(&t, "%016x", x)
			}

			fmt.Fprintf(&sb, `{"a":%d,"b":"%s","t":["%s"]}`+"\n", i, t.String(), t.String()[:500])
		}

		return sb.String()
	}

	emit := func(data string, set func(c *Case), f ...vos.Fault) {
		g.add(func() *Case {
			c := in(data)
			set(c)
			c.Faults = f

			return c
		})
	}

	bigData := big(60)

	for _, s := range outputSets() {
		for _, f := range s.files {
			// No destination at all.
			for nth := 0; nth <= 1; nth++ {
				emit(small, s.set, vos.Fault{Path: f, Op: "create", Nth: nth})
				emit(small, s.set, vos.Fault{Path: f, Op: "close", Nth: nth})
				emit(bigData, s.set, vos.Fault{Path: f, Op: "close", Nth: nth})
			}

			for nth := 0; nth <= 8; nth++ {
				for _, part := range []int{0, 1, 10} {
					for _, sticky := range []bool{false, true} {
						emit(small, s.set, vos.Fault{Path: f, Op: "write", Nth: nth, Partial: part, Sticky: sticky})
					}
				}
			}

			max := 40
			if g.thorough {
				max = 120
			}

			for nth := 0; nth <= max; nth++ {
				for _, part := range []int{0, 1000} {
					for _, sticky := range []bool{false, true} {
						if !g.thorough && sticky != (part == 0) {
							continue
						}

						emit(bigData, s.set, vos.Fault{Path: f, Op: "write", Nth: nth, Partial: part, Sticky: sticky})
					}
				}
			}

			// Two faults.
			for _, f2 := range s.files {
				for n1 := 0; n1 <= 3; n1++ {
					for n2 := 0; n2 <= 3; n2++ {
						emit(small, s.set, vos.Fault{Path: f, Op: "write", Nth: n1}, vos.Fault{Path: f2, Op: "close", Nth: n2})
						emit(small, s.set, vos.Fault{Path: f, Op: "close", Nth: n1}, vos.Fault{Path: f2, Op: "create", Nth: n2})
					}
				}
			}
		}

		if s.sql {
			for _, op := range []string{"open", "connect", "exec", "begin", "commit", "close"} {
				for at := 0; at <= 12; at++ {
					g.add(func() *Case {
						c := in(small)
						s.set(c)
						c.SQLOp, c.SQLAt = op, at

						return c
					})
				}
			}

			// Rows enough for several transactions.
			for _, at := range []int{0, 1, 2, 3} {
				g.add(func() *Case {
					c := in(rep(`{"a":1,"t":[1]}`+"\n", 10010))
					s.set(c)
					c.SQLOp, c.SQLAt = "commit", at
					c.Free = true

					return c
				})
				g.add(func() *Case {
					c := in(rep(`{"a":1,"t":[1]}`+"\n", 10010))
					s.set(c)
					c.SQLOp, c.SQLAt = "exec", 9990+at*20
					c.Free = true

					return c
				})
			}
		}
	}

	// More rows than the dump keeps in memory.
	for _, z := range []string{"", ".gz", ".zst"} {
		for nth := 0; nth <= 24; nth++ {
			g.add(func() *Case {
				c := in(rep(`{"a":1}`+"\n", 10005))
				c.Opts.PG = "/out/o.sql" + z
				c.Faults = []vos.Fault{{Path: c.Opts.PG, Op: "write", Nth: nth}}
				c.Free = true

				return c
			})
		}
	}

	// Destinations that do not exist.
	for _, set := range []func(c *Case){
		func(c *Case) { c.Opts.CSV = "/nodir/o.csv" },
		func(c *Case) { c.Opts.CSV = "/nodir/o.csv.gz" },
		func(c *Case) { c.Opts.Raw = "/nodir/o.raw" },
		func(c *Case) { c.Opts.Raw = "/nodir/o.raw.zst" },
		func(c *Case) { c.Opts.PG = "/nodir/o.sql" },
		func(c *Case) { c.Opts.CSV, c.Opts.Raw = "/out/o.csv", "/nodir/o.raw" },
		func(c *Case) { c.Opts.CSV, c.Opts.PG = "/out/o.csv", "/nodir/o.sql" },
		func(c *Case) { c.Opts.Output = "/nodir/o.csv" },
		func(c *Case) { c.Opts.Output = "/out/o.csv,/nodir/o.raw" },
		func(c *Case) { c.Opts.CSV = "/nodir/o.csv"; c.Opts.GetKey = ".a" },
	} {
		g.add(func() *Case {
			c := in(small)
			set(c)
			c.Tag = "nodir"

			return c
		})
	}

	// One row too big for what is written at once, and other options; every place of a failure.
	for _, f := range []func(c *Case){
		func(c *Case) { c.Opts.GetKey = ".b" },
		func(c *Case) { c.Cfg.IncludeKeys = []string{".b", ".a"} },
		func(c *Case) { c.Opts.AddSequence = true },
		func(c *Case) { c.Opts.OffsetLines = 3 },
		func(c *Case) { c.Opts.MaxLines = 30 },
		func(c *Case) { c.Opts.Concurrency = 3 },
		func(c *Case) { c.Cfg.Transpose = map[string]string{".t": "tt"}; c.Cfg.IncludeKeys = []string{".a"} },
		func(c *Case) { c.Opts.ShowFlat = true },
		func(c *Case) { c.Opts.MatchLinePrefix = "(x)" },
	} {
		for _, s := range outputSets() {
			for _, fn := range s.files {
				for nth := 0; nth <= 20; nth += 2 {
					emit(bigData, func(c *Case) { s.set(c); f(c) }, vos.Fault{Path: fn, Op: "write", Nth: nth})
				}

				emit(small, func(c *Case) { s.set(c); f(c) }, vos.Fault{Path: fn, Op: "create"})
				emit(small, func(c *Case) { s.set(c); f(c) }, vos.Fault{Path: fn, Op: "close"})
			}
		}
	}

	// Failures under the schedules of several workers.
	for _, s := range outputSets() {
		if s.name == "all" || s.name == "list" {
			continue
		}

		for _, fn := range s.files {
			for nth := 0; nth <= 4; nth++ {
				for _, n := range []int{2, 3} {
					g.add(func() *Case {
						c := in(big(4 * n))
						s.set(c)
						c.Opts.Concurrency = n
						c.Faults = []vos.Fault{{Path: fn, Op: "write", Nth: nth, Sticky: nth%2 == 1}}
						c.Mode, c.Bound = "db", 1

						if n == 3 && !g.thorough {
							c.Bound = 0
						}

						return c
					})
				}
			}
		}
	}
}

func checkOutputFaults(x *Ctx, o *Obs) string {
	hit := o.Hits+o.SQLHits > 0 || x.c.Tag == "nodir"

	if !hit {
		for _, f := range x.c.Faults {
			if _, made := o.Files[f.Path]; made && f.Op == "close" && f.Nth == 0 && len(x.c.Faults) == 1 && o.ok() {
				return "the run claims success without ever closing " + f.Path + ", so that a failure of that goes unnoticed"
			}
		}

		return stdCheck(x, o, cmpOpt{fold: sqliteOf(x.c) != ""})
	}

	if o.ok() {
		if n := len(x.c.Faults); n > 0 {
			return fmt.Sprintf("the run claims success though a %s of %s failed", x.c.Faults[0].Op, x.c.Faults[0].Path)
		}

		return "the run claims success though an output failed (" + x.c.SQLOp + " " + itoa(x.c.SQLAt) + ")"
	}

	if !o.failed() {
		return "the run did not report the failure in an orderly way: " + o.status() + logTail(o)
	}

	return ""
}
