package main

import (
	"fmt"
	"strings"
	"time"
)

func init() {
	register(&Prop{
		ID: "C32", Level: "model_checking",
		Rule:  "an execution is one complete run under one schedule over an input with more lines than workers; the threads alive at once, counted at every step, are compared with those of a run with one worker",
		Note:  schedNote + "; two threads more than the concurrency are tolerated, one more for each departure from the default schedule, a line is processed by one thread of its own",
		Cases: casesFlight, Check: checkFlight,
	})
}

// longer repeats the lines of the first input to at least n.
func longer(c *Case, n int) *Case {
	d := c.Files[0].Data
	for k := countLines(d); countLines(c.Files[0].Data) < n; {
		if k == 0 {
			break
		}

		c.Files[0].Data += d
	}

	return c
}

func countLines(s string) int {
	n := 0

	for i := range s {
		if s[i] == '\n' {
			n++
		}
	}

	return n
}

func casesFlight(g *Gen) {
	concs := []int{2, 3, 4, 6, 9}

	for _, s := range rowScenarios() {
		for _, conc := range concs {
			for _, v := range []string{"", "two inputs", "memory", "memory back", "no memory", "read"} {
				g.add(func() *Case {
					c := longer(s.build(len(s.lines)), 2*conc+8)
					c.Opts.Concurrency = conc
					c.Tag = s.name + " " + v

					switch v {
					case "two inputs":
						c.Files = append(c.Files, File{"/in/b.log", c.Files[0].Data})
					case "memory":
						c.Opts.MemLimit = 1
						c.Heap = "ynynnnyyn"
					case "memory back":
						// The first lines wait for memory, the others do not.
						longer(c, 4*conc+12)
						c.Opts.MemLimit = 1
						c.Heap = "yyyyyyyyyyyyyyyyyyyyyyyyn"
					case "no memory":
						c.Opts.MemLimit = 1
						c.Heap = "y"
					case "read":
						c.Opts.BufSize = bufFor(c)
						c.Chunk = []int{7}
					}

					return c
				})
			}
		}

		for _, conc := range []int{4, 6} {
			g.add(func() *Case {
				c := longer(s.build(len(s.lines)), conc+7)
				c.Opts.Concurrency = conc
				c.Opts.MemLimit = 1
				c.Heap = "y"
				c.Mode, c.Bound = "db", 1
				c.Tag = s.name + " no memory"

				return c
			})
		}

		// Lines do not wait any more when there is memory again.
		for _, h := range []string{"yn", "nyn", "yyn", "nynyn", "yyyn", "nnnnn"} {
			for _, conc := range []int{1, 3} {
				g.add(func() *Case {
					c := longer(s.build(len(s.lines)), 60)
					c.Opts.Concurrency = conc
					c.Opts.MemLimit = 1
					c.Heap = h
					c.Tag = s.name + " memory again"

					return c
				})
			}
		}

		for window := 1; window <= 2; window++ {
			for _, conc := range []int{2, 3} {
				g.add(func() *Case {
					c := longer(s.build(len(s.lines)), conc+7)
					c.Opts.Concurrency = conc
					c.Tag = s.name
					c.Mode, c.Window, c.Bound = "db", window, 1

					if g.thorough {
						c.Bound, c.Max = 2, 20000
					}

					return c
				})
			}
		}
	}

	// Failing lines and rows that can not be written give their place back.
	bad := []string{`{"a":1}`, `{"a":`, `text`, ``, `{"a":[tru]}`}

	upTo(bad, 3, func(l []string) {
		g.add(func() *Case {
			c := longer(csvCase(lines(l...)), 14)
			c.Opts.Concurrency = 3
			c.Opts.AddSequence = true
			c.Mode, c.Bound = "db", 1

			if !g.thorough {
				c.Mode = ""
			}

			return c
		})
	})
}

func checkFlight(x *Ctx, o *Obs) string {
	if freeMode {
		return ""
	}

	if !o.ok() {
		return "the run ended with " + o.status() + logTail(o)
	}

	base, ok := x.memo["base"]
	if !ok {
		c := *x.c
		c.Opts.Concurrency = 1
		b := c.exec(c.basePlan())

		if !b.ok() {
			return "the run with one worker ended with " + b.status() + logTail(b)
		}

		base = itoa(b.Peak)

		if x.memo == nil {
			x.memo = map[string]string{}
		}

		x.memo["base"] = base
	}

	var n int
	if _, err := fmt.Sscan(base, &n); err != nil {
		return err.Error()
	}

	workers := x.c.Opts.Concurrency

	// With all readings over the limit every line waits, but for those begun before the first reading.
	if n := countLines(x.c.Files[0].Data) - workers - 1; x.c.Heap == "y" && x.c.Opts.MaxLines == 0 && o.Time < int64(n)*int64(50*time.Millisecond) {
		return fmt.Sprintf("reading was not slowed down while memory was over the limit: %d lines in %s", n, time.Duration(o.Time))
	}

	// A reading over the limit makes one line wait.
	if k := strings.Count(x.c.Heap, "y"); strings.HasSuffix(x.c.Tag, " memory again") && o.Time > int64(k+1)*int64(time.Second) {
		return fmt.Sprintf("%d readings of memory were over the limit and the run waited for %s", k, time.Duration(o.Time))
	}

	if most := n + workers - 1 + 2 + x.c.Bound; o.Peak > most {
		return fmt.Sprintf("%d threads were at work at once, one worker needs %d, %d workers are allowed", o.Peak, n, workers)
	}

	return ""
}
