package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/vearutop/flatjsonl/zzverif/rt"
	"github.com/vearutop/flatjsonl/zzverif/vos"
	"github.com/vearutop/flatjsonl/zzverif/vsql"
)

func init() {
	register(&Prop{
		ID: "C38", Level: "fault_enumeration",
		Rule: "an execution is one run of a processor made through the Go API (or of the tool) in which no operation, or one or two chosen operations on inputs and outputs fail; what is open and " +
			"what still runs is counted ten seconds of virtual time after the processor has returned",
		Note:  "goroutines of the libraries in use (compression, databases, progress) are given five seconds of real time to end",
		Cases: casesHold, Check: checkHold,
	})
}

// Left is what processors have not given back when they are done.
type Left struct {
	Err     error
	Files   []string // open files
	Conns   int      // connections to databases
	Threads int      // goroutines of the program
	Late    int      // operations of goroutines of the program after the end
	Foreign int      // goroutines of libraries
	Stacks  []string // where they were started
}

var left *Left

// holdings remembers what is held before a processor is made, the result counts what is held afterwards.
func holdings(c *Case) func(err error) {
	if c.Aux["hold"] == "" || freeMode || c.Free || rt.RaceEnabled {
		return func(error) {}
	}

	foreign := runtime.NumGoroutine()

	return func(err error) {
		ops := rt.Ops()

		rt.Sleep(int64(10 * time.Second))

		ops = rt.Ops() - ops

		l := &Left{Err: err, Files: vos.Current.Unclosed(), Conns: vsql.Conns(), Threads: rt.Alive(), Late: ops}

		for wait := time.Microsecond; ; wait *= 2 {
			l.Foreign = runtime.NumGoroutine() - foreign - l.Threads
			if l.Foreign <= 0 || pgzipFault(c, err) {
				l.Foreign = 0
				break
			}

			if wait > 5*time.Second {
				break
			}

			time.Sleep(wait)
		}

		if l.Foreign+l.Threads > 0 {
			l.Stacks = startedBy()
		}

		left = l
	}
}

// pgzipFault tells that a gzip output has failed, the library keeps a goroutine then.
func pgzipFault(c *Case, err error) bool {
	for _, f := range c.Faults {
		if err != nil && f.Op == "write" && strings.HasSuffix(f.Path, ".gz") && strings.HasPrefix(f.Path, "/out/") {
			return true
		}
	}

	return false
}

// startedBy lists where goroutines that are alive were started.
func startedBy() []string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	m := map[string]int{}

	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "created by ") {
			l = strings.TrimPrefix(l, "created by ")
			if i := strings.Index(l, " in goroutine"); i > 0 {
				l = l[:i]
			}

			m[l]++
		}
	}

	r := []string{}
	for k, n := range m {
		r = append(r, fmt.Sprintf("%s x%d", k, n))
	}

	sort.Strings(r)

	return r
}

func casesHold(g *Gen) {
	docs := []string{
		lines(
			`{"a":1,"b":"x","d":{"x":1,"y":null},"t":[1,{"q":2}],"o":{"m":{"v":1},"n":{"w":2}},"u":"http://u:p@h:1/p?k=1&l=2#f","j":"{\"x\":1}","s":"2024-01-02","S":"x"}`,
			`pr {"B":2,"a":0,"A":1.5,"d":{"X":3,"x":"s"},"t":[[3],{"Q":1,"r":null}],"o":{"n":{"v":7},"m":3},"u":"/p?k=2","s":"bad"}`,
			`{"a":3}`,
		),
		lines(`{"a":1}`, `not json`, `{"a":{"b":2}}`),
	}
	outs := []func(c *Case){
		func(c *Case) { c.Opts.CSV = "/out/o.csv" },
		func(c *Case) { c.Opts.PG = "/out/o.sql" },
		func(c *Case) { c.Opts.Raw = "/out/o.raw" },
		func(c *Case) { c.Opts.SQLite = "/out/o.sqlite" },
		func(c *Case) { c.Opts.Output, c.Opts.PG = "/out/o.csv.gz,/out/o.raw", "/out/o.sql.zst" },
		func(c *Case) { c.Opts.CSV, c.Opts.Raw, c.Opts.PG = "<nop>", "<nop>", "<nop>" },
	}
	windows := []func(c *Case){
		func(c *Case) {},
		func(c *Case) { c.Opts.MaxLines = 1 },
		func(c *Case) { c.Opts.OffsetLines, c.Opts.MaxLines = 1, 1 },
		func(c *Case) { c.Opts.MaxLinesKeys = 1 },
		func(c *Case) { c.Opts.OffsetLines = 10 },
	}

	n := 0

	// Runs of the processor in all ways a processor may be used.
	add := func(data string, setup ...func(c *Case)) {
		n++
		k := n

		g.add(func() *Case {
			c := in(data)
			c.Entry = "lib"
			c.set("hold", "1")
			c.Opts.Concurrency = 1 + 2*(k%2)
			c.Lib = &Lib{Steps: k/2%2 == 1}

			for _, f := range setup {
				f(c)
			}

			if c.Opts.CSV+c.Opts.PG+c.Opts.Raw+c.Opts.SQLite+c.Opts.Output == "" {
				c.Opts.CSV = "/out/o.csv"
			}

			return c
		})
	}

	encode := func(e encoding) func(c *Case) {
		return func(c *Case) {
			for i, f := range c.Files {
				name := strings.TrimSuffix(f.Name, ".log") + e.ext
				c.set("plain:"+name, f.Data)
				c.Files[i] = File{name, e.f(f.Data)}
			}
		}
	}

	heaps := []string{"", "n", "y", "ny", "nny", "yn", "?"}

	for _, f := range repeatable() {
		for d, doc := range docs {
			for o, out := range outs {
				for _, w := range windows {
					for e, enc := range encodings[:3] {
						if !g.thorough && (d+o)%3 != e {
							continue
						}

						for _, h := range heaps {
							if !g.thorough && h != "" && (len(h)+d+o)%3 != e {
								continue
							}

							add(doc, f.set, out, w, encode(enc), func(c *Case) {
								if c.Heap = h; h != "" {
									c.Opts.MemLimit = 1
								}

								if h == "?" {
									c.Mode, c.Bound = "env", 1
								}
							})
						}
					}
				}
			}
		}
	}

	// What is left unread is more than any buffer.
	text := func(n int) string {
		var sb strings.Builder

		x := uint64(88172645463325252)

		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, `{"a":%d,"b":"`, i)

			for j := 0; j < 60; j++ {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				fmt.Fprintf(&sb, "%016x", x)
			}

			sb.WriteString("\"}\n")
		}

		return sb.String()
	}
	big := text(900)

	for _, out := range outs {
		for _, w := range windows {
			for _, enc := range encodings {
				for _, get := range []string{"", ".a"} {
					add(big, out, w, encode(enc), func(c *Case) { c.Opts.GetKey = get })
					add(big, out, w, encode(enc), func(c *Case) { c.Opts.GetKey = get; c.Lib.Readers = "r" })
				}
			}
		}
	}

	// Many inputs, files and readers.
	for _, kinds := range []string{"", "r", "fr", "rf", "ffff", "frfr", "ffffffffffff", "rrrrrrrrrrrr", "frfrfrfrfrfr"} {
		for _, out := range outs {
			for _, w := range windows {
				for _, enc := range encodings[:3] {
					for _, entry := range []string{"lib", ""} {
						if entry == "" && strings.Contains(kinds, "r") {
							continue
						}

						add(lines(`{"a":1,"t":[1,2]}`, `{"a":2}`), out, w, func(c *Case) {
							c.Lib.Readers = kinds

							if c.Entry = entry; entry == "" {
								c.Lib = nil
							}

							data := c.Files[0].Data

							for i := 1; i < len(kinds); i++ {
								c.Files = append(c.Files, File{"/in/" + string(rune('a'+i)) + ".log", data})
							}
						}, encode(enc))
					}
				}
			}
		}
	}

	// Nothing to write, nothing to read, nothing to be found.
	for _, f := range []func(c *Case){
		func(c *Case) { c.Opts.SQLMaxCols, c.Opts.SQLite = 1, "/out/o.sqlite" },
		func(c *Case) { c.Opts.SQLMaxCols, c.Opts.PG = 1, "/out/o.sql" },
		func(c *Case) { c.Opts.SQLMaxCols, c.Opts.CSV, c.Opts.PG = 1, "/out/o.csv.gz", "/out/o.sql.gz" },
		func(c *Case) { c.Opts.CSV, c.Opts.Raw = "/out/o", "/out/o" },
		func(c *Case) { c.Opts.CSV = "/in/a.log" },
		func(c *Case) { c.Opts.CSV, c.Opts.Raw = "/out/o.csv.zst", "/nodir/o.raw" },
		func(c *Case) { c.Opts.CSV, c.Opts.PG = "/out/o.csv.gz", "/nodir/o.sql" },
		func(c *Case) { c.Opts.Raw, c.Opts.PG = "/nodir/o.raw.gz", "/out/o.sql" },
		func(c *Case) { c.Files[0].Data = "" },
		func(c *Case) { c.Files = append(c.Files, File{"/in/b.log", ""}) },
		func(c *Case) { c.Files = append(c.Files, File{"/in/b.log", "x"}); c.set("missing", "/in/b.log") },
		func(c *Case) { c.set("missing", "/in/a.log") },
		func(c *Case) { c.Files[0].Data = "\n\n" },
		func(c *Case) { c.Files[0].Data = strings.Repeat("x", 70000) },
		func(c *Case) { c.Files[0].Data += strings.Repeat("x", 70000) + "\n" },
		func(c *Case) { c.Opts.CSV, c.Opts.ShowFlat = "", true },
		func(c *Case) { c.Files[0] = File{"/in/a.gz", "not gzip"} },
		func(c *Case) { c.Files[0] = File{"/in/a.zst", "not zstandard"} },
		func(c *Case) { c.Files = append(c.Files, File{"/in/b.gz", "not gzip"}) },
		func(c *Case) { c.Files = append(c.Files, File{"/in/b.zst", "not zstandard"}) },
	} {
		for _, out := range outs {
			for _, h := range heaps[:3] {
				for _, rd := range []string{"", "r"} {
					add(docs[0], out, f, func(c *Case) {
						c.Lib.Readers = rd

						if c.Heap = h; h != "" {
							c.Opts.MemLimit = 1
						}
					})
				}
			}
		}
	}

	// Damaged and cut compressed inputs.
	for _, enc := range encodings {
		if enc.ext == ".log" {
			continue
		}

		for _, src := range []string{docs[0], text(200)} {
			whole := enc.f(src)
			step := max(1, len(whole)/24)

			for at := 1; at < len(whole); at += step {
				for _, cut := range []bool{true, false} {
					for _, rd := range []string{"", "r"} {
						for _, w := range windows[:2] {
							add("", outs[n%len(outs)], w, func(c *Case) {
								c.Lib.Readers = rd
								c.Files[0].Name = "/in/a" + enc.ext

								if cut {
									c.Files[0].Data = whole[:at]
								} else {
									c.Files[0].Data = whole[:at] + string([]byte{whole[at] ^ 0x55}) + whole[at+1:]
								}
							})
						}
					}
				}
			}
		}
	}

	// Failures of inputs.
	for _, out := range outs {
		for _, enc := range encodings[:3] {
			for _, op := range []string{"open", "read", "close"} {
				for nth := 0; nth <= 4; nth++ {
					for _, two := range []bool{false, true} {
						for _, big := range []bool{false, true} {
							src := docs[0]
							if big {
								src = text(100)
							}

							add(src, out, func(c *Case) {
								if two {
									c.Files = append([]File{{"/in/0.log", docs[1]}}, c.Files...)
								}
							}, encode(enc), func(c *Case) {
								c.Faults = []vos.Fault{{Path: c.Files[len(c.Files)-1].Name, Op: op, Nth: nth, Partial: 10 * (nth % 2)}}
							})
						}
					}
				}
			}
		}
	}

	// Failures of outputs.
	small := lines(`{"a":1,"b":"x","t":[1,2]}`, `{"a":2,"b":"y","t":[{"u":1}]}`, `{"a":3,"t":{"p":4}}`)

	for _, s := range outputSets() {
		for _, src := range []string{small, text(100)} {
			for _, h := range heaps[:3] {
				mem := func(c *Case) {
					if c.Heap = h; h != "" {
						c.Opts.MemLimit = 1
					}
				}

				for _, f := range s.files {
					for _, op := range []string{"create", "write", "close"} {
						for nth := 0; nth <= 6; nth++ {
							for _, sticky := range []bool{false, true} {
								add(src, s.set, mem, func(c *Case) {
									c.Faults = []vos.Fault{{Path: f, Op: op, Nth: nth, Sticky: sticky}}
								})
							}

							for _, f2 := range s.files {
								for n2 := 0; n2 <= 1 && (h == "" || g.thorough); n2++ {
									add(src, s.set, mem, func(c *Case) {
										c.Faults = []vos.Fault{{Path: f, Op: op, Nth: nth}, {Path: f2, Op: "close", Nth: n2}}
									})
								}
							}
						}
					}
				}

				if s.sql {
					for _, op := range []string{"open", "connect", "exec", "begin", "commit", "close"} {
						for at := 0; at <= 12; at++ {
							add(src, s.set, mem, func(c *Case) { c.SQLOp, c.SQLAt = op, at })
						}
					}
				}
			}
		}
	}

	// Under other schedules.
	for _, s := range outputSets() {
		if strings.HasSuffix(s.name, "z") || strings.HasSuffix(s.name, ".zst") || s.name == "list" {
			continue // Compressors take much memory.
		}

		for f, fault := range []func(c *Case){
			func(c *Case) {},
			func(c *Case) { c.Opts.MaxLines = 1 },
			func(c *Case) { c.Files[0].Data += "no json\n" },
			func(c *Case) { c.Faults = []vos.Fault{{Path: c.Files[0].Name, Op: "read", Nth: 1}} },
			func(c *Case) { c.Faults = []vos.Fault{{Path: c.Files[0].Name, Op: "read", Nth: 3, Partial: 20}} },
			func(c *Case) {
				if len(s.files) > 0 {
					c.Faults = []vos.Fault{{Path: s.files[0], Op: "write"}}
				} else {
					c.SQLOp, c.SQLAt = "exec", 3
				}
			},
		} {
			for _, h := range heaps[:3] {
				add(small, s.set, fault, func(c *Case) {
					c.Opts.Concurrency = 2
					c.Mode, c.Bound = "db", 1

					if h == "" && f%2 == 1 {
						c.Bound = 2
					}

					c.Tag = fmt.Sprint(f)

					if c.Heap = h; h != "" {
						c.Opts.MemLimit = 1
					}

					if g.thorough {
						c.Bound++
					}
				})
			}
		}
	}
}

func checkHold(x *Ctx, o *Obs) string {
	switch o.Outcome {
	case rt.OutDone, rt.OutExit:
	default:
		return "the run did not end in an orderly way: " + o.status() + logTail(o)
	}

	if o.InPeak > 2 {
		return fmt.Sprintf("%d inputs are open at once", o.InPeak)
	}

	if x.c.Entry != "lib" {
		return ""
	}

	l := o.Left
	if l == nil {
		return "a failure was not returned, the program that uses the processor was ended: " + o.status() + logTail(o)
	}

	how := "is done"
	if l.Err != nil {
		how = "has failed (" + l.Err.Error() + ")"
	}

	switch {
	case len(l.Files) > 0:
		return "files are open after the processor " + how + ": " + strings.Join(l.Files, ", ")
	case l.Conns > 0:
		return fmt.Sprintf("%d connections to the database are open after the processor %s", l.Conns, how)
	case l.Threads > 0:
		return fmt.Sprintf("%d goroutines have not ended after the processor %s: %s", l.Threads, how, strings.Join(l.Stacks, ", "))
	case l.Late > 8: // Signalling an end takes a few.
		return fmt.Sprintf("goroutines go on after the processor %s, they did %d more operations", how, l.Late)
	case l.Foreign > 0:
		return fmt.Sprintf("%d goroutines of libraries have not ended after the processor %s: %s", l.Foreign, how, strings.Join(l.Stacks, ", "))
	}

	return ""
}
