package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C34", Level: "model_checking",
		Rule:  "an execution is one run on a distinct sequence of lines, verbosity, options and schedule; what is written to stderr, pass by pass, is compared with the lines that are damaged, and the outputs with the reference",
		Note:  "each damaged text is either without JSON or with JSON that does not parse, by construction",
		Cases: casesDiag, Check: checkDiag,
	})
}

// diagLine is a line and what is wrong with it.
type diagLine struct {
	text string
	bad  byte   // 0 fine, n: no JSON, m: malformed JSON
	tail string // the part that is malformed
}

var diagLines = []diagLine{
	{`{"a":1}`, 0, ""},
	{`junk`, 'n', ""},
	{`{"a":`, 'm', `{"a":`},
	{``, 'n', ""},
	{`p 7 {"b":"x"}`, 0, ""},
	{`p 7 {"b":x}`, 'm', `{"b":x}`},
	{`[1,2]`, 'n', ""},
	{`{}`, 0, ""},
	{`{"a":1}}`, 0, ""},
	{`"{"`, 'm', `{"`},
	{`{"a" 1}`, 'm', `{"a" 1}`},
	{`%d %s`, 'n', ""},
}

func diagCase(ls []diagLine) *Case {
	var t []string
	for _, l := range ls {
		t = append(t, l.text)
	}

	return csvCase(lines(t...))
}

var (
	diagErrors  = regexp.MustCompile(`errors: (\d+)`)
	diagSummary = regexp.MustCompile(`^lines: (\d+), keys: (\d+)$`)
)

// diagPasses splits the messages.
func diagPasses(s string) (res [][]string, first string) {
	for _, l := range strings.SplitAfter(s, "\n") {
		if l == "" {
			continue
		}

		if !strings.HasSuffix(l, "\n") {
			return nil, "a message has no end: " + l
		}

		l = strings.TrimSuffix(l, "\n")

		switch {
		case l == "scanning keys..." || l == "flattening data...":
			res = append(res, []string{l})
		case len(res) == 0:
			return nil, "message before the first pass: " + l
		default:
			res[len(res)-1] = append(res[len(res)-1], l)
		}
	}

	return res, ""
}

func checkDiag(x *Ctx, o *Obs) string {
	opt := cmpOpt{}
	if x.c.Mode != "" {
		opt.anyOrder, opt.fold = true, true
	}

	if msg := stdCheck(x, o, opt); msg != "" {
		return msg
	}

	c := x.c
	passes, msg := diagPasses(o.Stderr)

	if msg != "" {
		return msg
	}

	want := []string{}
	if len(c.Cfg.IncludeKeysRegex) > 0 || len(c.Cfg.IncludeKeys) == 0 && c.Opts.GetKey == "" {
		want = append(want, "scanning keys...")
	}

	want = append(want, "flattening data...")

	if len(want) != len(passes) {
		return fmt.Sprintf("%d passes are announced, expected %d: %q", len(passes), len(want), o.Stderr)
	}

	for i, p := range passes {
		if p[0] != want[i] {
			return fmt.Sprintf("pass %d is announced as %q", i+1, p[0])
		}

		limit := c.Opts.MaxLines
		if p[0] == "scanning keys..." && c.Opts.MaxLinesKeys > 0 && (limit == 0 || c.Opts.MaxLinesKeys < limit) {
			limit = c.Opts.MaxLinesKeys
		}

		if msg := diagPass(c, p, refLines(c, c.Opts.OffsetLines, limit)); msg != "" {
			return fmt.Sprintf("%s: %s: %q", p[0], msg, p)
		}
	}

	return ""
}

func diagPass(c *Case, msgs []string, ls []refLine) string {
	known := map[string]diagLine{}
	for _, l := range diagLines {
		known[l.text] = l
	}

	prefix := c.Opts.MatchLinePrefix != "" || c.Cfg.MatchLinePrefix != ""

	type rep struct {
		seq  int
		text string
	}

	var want []rep

	for _, l := range ls {
		switch d := known[l.text]; {
		case d.bad == 'n' && !prefix:
			want = append(want, rep{0, d.text})
		case d.bad == 'm':
			want = append(want, rep{l.seq, d.tail})
		}
	}

	bad := len(want)

	// The texts that fit fewer messages first.
	sort.SliceStable(want, func(i, j int) bool { return len(want[i].text) > len(want[j].text) })

	var errs []string

	status, count := 0, -1

	for _, m := range msgs[1:] {
		switch {
		case strings.HasPrefix(m, "error: "):
			errs = append(errs, m)
		case strings.Contains(m, "bytes read"):
			status++
		default:
			if s := diagErrors.FindStringSubmatch(m); s != nil {
				count, _ = strconv.Atoi(s[1])
			} else if s := diagSummary.FindStringSubmatch(m); s != nil {
				if m := diagTotals(c, s); m != "" {
					return m
				}
			} else {
				return "unexpected message " + strconv.Quote(m)
			}
		}
	}

	if v := c.Opts.Verbosity; v == 0 && status > 0 {
		return "status is shown, it is disabled"
	} else if v > 0 && status != len(c.Files) {
		return fmt.Sprintf("%d reports of status, expected one for each of %d inputs", status, len(c.Files))
	}

	if c.Opts.Verbosity < 2 {
		if len(errs) > 0 || count >= 0 {
			return "details are shown, they are not asked for"
		}

		return ""
	}

	if count != bad {
		return fmt.Sprintf("%d errors are counted, there are %d damaged lines", count, bad)
	}

next:
	for _, w := range want {
		for i, e := range errs {
			if strings.HasSuffix(e, w.text) && (w.seq == 0 || strings.Contains(e, "line "+strconv.Itoa(w.seq)+":")) {
				errs = append(errs[:i], errs[i+1:]...)
				continue next
			}
		}

		return fmt.Sprintf("damaged line %q (%d) is not reported", w.text, w.seq)
	}

	if len(errs) > 0 {
		return "reported without cause: " + strconv.Quote(errs[0])
	}

	return ""
}

// diagTotals checks the summary of a pass.
func diagTotals(c *Case, s []string) string {
	if c.Opts.OffsetLines == 0 && c.Opts.MaxLines == 0 && c.Opts.MaxLinesKeys == 0 {
		n := 0
		for _, f := range c.Files {
			n += strings.Count(f.Data, "\n")
		}

		if s[1] != strconv.Itoa(n) {
			return fmt.Sprintf("%s lines, expected %d", s[1], n)
		}
	}

	cols := len(expect(c).main.cols)

	if s[2] != strconv.Itoa(cols) {
		return fmt.Sprintf("%s keys, expected %d", s[2], cols)
	}

	return ""
}

func casesDiag(g *Gen) {
	opts := []func(c *Case){
		func(c *Case) {},
		func(c *Case) { c.Opts.Concurrency = 3 },
		func(c *Case) { c.Opts.GetKey = ".a" },
		func(c *Case) { c.Opts.MatchLinePrefix = `(\w) (\d)` },
		func(c *Case) { c.Opts.AddSequence = true },
		func(c *Case) { c.Opts.OffsetLines = 1 },
		func(c *Case) { c.Opts.MaxLines = 2 },
		func(c *Case) { c.Opts.MaxLinesKeys = 1 },
		func(c *Case) { c.Cfg.IncludeKeys = []string{".a", ".b"} },
		func(c *Case) { c.Opts.Raw, c.Opts.PG = "/out/o.raw", "/out/o.sql" },
	}

	n := 3
	if g.thorough {
		n = 4
	}

	for k := 1; k <= n; k++ {
		seqs(diagLines, k, func(ls []diagLine) {
			ls = append([]diagLine{}, ls...)

			for v := 0; v <= 3; v++ {
				if k == n && v != 2 {
					continue
				}

				for _, opt := range opts {
					g.add(func() *Case {
						c := diagCase(ls)
						c.Opts.Verbosity = v
						opt(c)

						return c
					})
				}
			}
		})
	}

	// Two inputs.
	seqs(diagLines, 2, func(ls []diagLine) {
		ls = append([]diagLine{}, ls...)

		for _, opt := range opts {
			for v := 1; v <= 2; v++ {
				g.add(func() *Case {
					c := diagCase(ls)
					c.Files = append(c.Files, File{"/in/b.log", lines(ls[1].text, ls[0].text, ls[1].text)})
					c.Opts.Verbosity = v
					opt(c)

					return c
				})
			}
		}
	})

	// Schedules.
	turn := 0

	seqs(diagLines[:6], 3, func(ls []diagLine) {
		ls = append([]diagLine{}, ls...)
		turn++

		if turn%9 == 0 || g.thorough {
			g.add(func() *Case {
				c := diagCase(ls)
				c.Opts.Verbosity = 2
				c.Opts.Concurrency = 2
				c.Mode, c.Bound, c.Stmts = "db", 1, true

				return c
			})
		}

		for window := 1; window <= 2; window++ {
			g.add(func() *Case {
				c := diagCase(ls)
				c.Opts.Verbosity = 2
				c.Opts.Concurrency = 2
				c.Mode, c.Window, c.Bound = "db", window, 1

				if g.thorough {
					c.Bound = 2
				}

				return c
			})
		}
	})
}
