package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C37", Level: "exploration",
		Rule:  "a case is one complete run with up to three numeric flags at an extreme value; what it leaves is compared with the run that has values instead which are larger than anything in the input",
		Note:  inputNote + "; sizes that no memory can hold (concurrency, buffer) are left out",
		Cases: casesLimits, Check: checkLimits,
	})
}

// limit is a numeric flag with the values that limit nothing, the first of them is a plain one.
type limit struct {
	name string
	vals []string
}

const (
	minInt = "-9223372036854775808"
	maxInt = "9223372036854775807"
)

func limits37() []limit {
	return []limit{
		{"max-lines", []string{"100000", "0", "-1", "-3", minInt, maxInt, "9223372036854775806"}},
		{"offset-lines", []string{"0", "-1", "-2", "-1000", minInt}},
		{"max-lines-keys", []string{"100000", "0", "-1", "-2", minInt, maxInt}},
		{"field-limit", []string{"100000", "0", "-1", "-2", minInt, maxInt}},
		{"key-limit", []string{"100000", "0", "-1", "-2", minInt, maxInt}},
		{"children-limit", []string{"100000", "0", "-1", "-2", minInt, maxInt}},
		{"sql-max-cols", []string{"500", "0", "1000", maxInt}},
		{"mem-limit", []string{"100000", "0", "-1", minInt}},
		{"concurrency", []string{"1", "0", "-1", "-16", minInt}},
		{"buf-size", []string{"100000", "0", "-1", minInt}},
		{"dbg-loop-input-size", []string{"0", "-1", minInt}},
		{"progress-interval", []string{"1h", "0", "-1ns", "-1h", "2562047h"}},
	}
}

// limitBase gives every limit a plain value, then those of set.
func limitBase(data []string, set map[string]string) *Case {
	c := &Case{}
	for i, d := range data {
		c.Files = append(c.Files, File{"/in/" + string(rune('a'+i)) + ".log", d})
	}

	c.Opts.Bare = true
	c.Opts.Args = []string{"-verbosity", "0"}

	for _, l := range limits37() {
		v, ok := set[l.name]
		if !ok {
			v = l.vals[0]
		}

		c.Opts.Args = append(c.Opts.Args, "-"+l.name, v)
	}

	return c
}

func limitSets() []option {
	return []option{
		{"csv", func(c *Case) { c.Opts.CSV = "/out/o.csv" }},
		{"all", func(c *Case) { c.allOut() }},
		{"pg", func(c *Case) { c.Opts.PG = "/out/o.sql" }},
		{"sqlite", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite" }},
		{"transposed", func(c *Case) {
			c.allOut()
			c.Opts.SQLite = ""
			c.Cfg.Transpose = map[string]string{".t": "tt"}
		}},
		{"selected", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Cfg.IncludeKeys = []string{".s", ".o.k1"} }},
		{"single", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.GetKey = ".o.k1" }},
		{"times", func(c *Case) {
			c.Opts.PG = "/out/o.sql"
			c.Cfg.ParseTime = map[string]string{".d": "2006-01-02"}
		}},
		{"strings", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.ExtractStrings = true }},
		{"prefix", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.MatchLinePrefix = "(p)" }},
		{"names", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.ReplaceKeys = true }},
		{"concat", func(c *Case) {
			c.Opts.CSV = "/out/o.csv"
			c.Cfg.ConcatDelimiter = ptr("+")
			c.Cfg.ReplaceKeys = map[string]string{".s": "x", ".d": "x"}
		}},
		{"keep", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Cfg.KeepJSON = []string{".o", ".t"} }},
		{"sequence", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.AddSequence = true }},
		{"flat", func(c *Case) { c.Opts.ShowFlat = true }},
		{"info", func(c *Case) { c.Opts.ShowInfo = true }},
	}
}

func limitDocs() [][]string {
	l := `p {"s":"some text","d":"2024-01-02","n":1.5,"o":` + wide(7, 1) + `,"t":[1,{"x":2},"three"],"j":"{\"q\":[1,2]}","e":""}`
	m := `{"s":"` + rep("long ", 60) + `","d":"x","n":null,"o":` + wide(120, 1) + `,"t":[4],"j":"[]","e":"` + `é"}`

	return [][]string{
		{lines(l, l, `bad`, l, l)},
		{lines(m, l)},
		{lines(l, m), lines(l), lines(m, m, m)},
	}
}

func casesLimits(g *Gen) {
	ls := limits37()
	docs := limitDocs()

	add := func(doc int, set option, tag string, vals map[string]string) {
		g.add(func() *Case {
			c := limitBase(docs[doc], vals)
			set.f(c)
			c.Tag = tag

			for _, k := range sortedKeys(vals) {
				c.set(k, vals[k])
			}

			return c
		})
	}

	for d := range docs {
		for _, s := range limitSets() {
			for i, l := range ls {
				for _, v := range l.vals {
					add(d, s, "one", map[string]string{l.name: v})

					// Next to another one at an extreme, or in effect.
					for _, l2 := range ls[i+1:] {
						for _, v2 := range l2.vals {
							add(d, s, "two", map[string]string{l.name: v, l2.name: v2})
						}
					}
				}
			}

			for _, w := range []map[string]string{
				{"max-lines": "2"},
				{"offset-lines": "1"},
				{"max-lines": "2", "offset-lines": "1"},
				{"max-lines-keys": "1"},
				{"field-limit": "5"},
				{"children-limit": "3"},
				{"sql-max-cols": "4"},
				{"concurrency": "3"},
			} {
				for _, l := range ls {
					if _, ok := w[l.name]; ok {
						continue
					}

					for _, v := range l.vals[1:] {
						set := map[string]string{l.name: v}
						for k, x := range w {
							set[k] = x
						}

						add(d, s, "with", set)
					}
				}
			}
		}

		// Tables need a column next to the sequence.
		for _, v := range []string{"1", "-1", "-2", "-3", "-500", minInt} {
			for _, s := range limitSets() {
				add(d, s, "no columns", map[string]string{"sql-max-cols": v})
			}
		}
	}
}

func checkLimits(x *Ctx, o *Obs) string {
	c := x.c
	_, _, db, pg := c.Opts.outputs()

	if c.Tag == "no columns" && db+pg != "" {
		if !o.failed() {
			return "tables can not have columns, the run ended with " + o.status()
		}

		return ""
	}

	// The values that are compared with plain ones.
	plain := map[string]string{}

	for _, l := range limits37() {
		if v, ok := c.Aux[l.name]; ok {
			extreme := false
			for _, e := range l.vals {
				extreme = extreme || e == v
			}

			if !extreme && c.Tag != "no columns" {
				plain[l.name] = v
			}
		}
	}

	b := c.clone()
	b.Opts.Args = limitBase(nil, plain).Opts.Args

	_, conc := c.Aux["concurrency"]

	// Columns stay in the order of their appearance with a single worker.
	if conc && c.Aux["concurrency"] != "1" && plain["concurrency"] == "" {
		if o.status() != "done" {
			return "the run ended with " + o.status()
		}

		if len(c.Aux) == 1 && !c.Opts.ShowFlat && !c.Opts.ShowInfo {
			p := c.clone()
			p.Opts.ChildrenLimit = ptr(100000)
			p.Opts.SQLMaxCols = 500

			return cmpAll(c, o, expect(p), cmpOpt{anyOrder: true, fold: true})
		}

		return ""
	}

	if msg := sameBytes(x, b.exec(b.basePlan()), o); msg != "" {
		return fmt.Sprintf("with %v instead of %s: %s", plain, strings.Join(c.Opts.Args, " "), msg)
	}

	return ""
}
