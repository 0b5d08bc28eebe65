package main

import (
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/vearutop/flatjsonl/zzverif/vos"
	"github.com/vearutop/flatjsonl/zzverif/vsql"
)

func init() {
	register(&Prop{
		ID: "C36", Level: "model_checking",
		Rule: "a state is the contents of all files and of the database, a transition is one complete run over them; a case is one history of up to three runs, or one run over files with given contents; " +
			"after the last run of a case every file is compared with what the same run leaves in an empty directory, and with what it was before",
		Note:  inputNote + "; permissions and directories are not modelled, links are other names of a file that exists",
		Cases: casesFiles, Check: checkFiles,
	})
}

const (
	bigFile   = "/in/a.log"
	smallFile = "/in/b.log"
)

var (
	bigData = lines(
		`{"a":1,"b":"`+rep("long ", 40)+`","t":{"k":{"x":1,"y":2},"l":{"x":3}}}`,
		`{"a":2,"b":"two","c":[1,2,3],"t":{"m":{"x":4,"z":"`+rep("zz", 60)+`"}}}`,
		`not JSON`, `{"a":3.5,"d":null}`, `{"b":"last","t":{"k":{"y":"`+rep("y", 50)+`"}}}`,
	)
	smallData = lines(`{"a":7}`, `{"t":{"k":{"x":8}}}`)
)

// fileSteps are runs over the same directory.
func fileSteps() []option {
	trans := func(c *Case) { c.Cfg.Transpose = map[string]string{".t": "tt"} }
	small := func(c *Case) { c.Files = []File{{smallFile, smallData}} }

	return []option{
		{"csv", func(c *Case) { c.Opts.CSV = "/out/o.csv" }},
		{"csv small", func(c *Case) { c.Opts.CSV = "/out/o.csv"; small(c) }},
		{"csv transposed", func(c *Case) { c.Opts.CSV = "/out/o.csv"; trans(c) }},
		{"csv small transposed", func(c *Case) { c.Opts.CSV = "/out/o.csv"; trans(c); small(c) }},
		{"csv table", func(c *Case) { c.Opts.CSV = "/out/o_tt.csv"; small(c) }},
		{"gz", func(c *Case) { c.Opts.CSV = "/out/o.csv.gz" }},
		{"gz small", func(c *Case) { c.Opts.CSV = "/out/o.csv.gz"; small(c) }},
		{"gz transposed", func(c *Case) { c.Opts.CSV = "/out/o.csv.gz"; trans(c) }},
		{"zst", func(c *Case) { c.Opts.CSV = "/out/o.csv.zst" }},
		{"zst small", func(c *Case) { c.Opts.CSV = "/out/o.csv.zst"; small(c) }},
		{"raw", func(c *Case) { c.Opts.Raw, c.Opts.RawDelim = "/out/o.raw", "|" }},
		{"raw small", func(c *Case) { c.Opts.Raw = "/out/o.raw"; small(c) }},
		{"raw transposed", func(c *Case) { c.Opts.Raw = "/out/o.raw"; trans(c) }},
		{"raw to csv", func(c *Case) { c.Opts.Raw = "/out/o.csv"; small(c) }},
		{"pg", func(c *Case) { c.Opts.PG = "/out/o.sql"; trans(c) }},
		{"pg small", func(c *Case) { c.Opts.PG = "/out/o.sql"; small(c) }},
		{"pg gz", func(c *Case) { c.Opts.PG = "/out/o.sql.gz" }},
		{"pg gz small", func(c *Case) { c.Opts.PG = "/out/o.sql.gz"; small(c) }},
		{"pg zst", func(c *Case) { c.Opts.PG = "/out/o.sql.zst"; small(c) }},
		{"sqlite", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite" }},
		{"sqlite small", func(c *Case) { c.Opts.SQLite = "/out/o.sqlite"; small(c); trans(c) }},
		{"sqlite other", func(c *Case) { c.Opts.SQLite, c.Opts.SQLTable = "/out/o.sqlite", "other"; trans(c) }},
		{"sqlite parts", func(c *Case) {
			c.Opts.SQLite, c.Opts.SQLTable, c.Opts.SQLMaxCols = "/out/o.sqlite", "third", 2
			small(c)
		}},
		{"sqlite name", func(c *Case) { c.Opts.SQLite, c.Opts.SQLTable = "/out/o.sqlite", "flatjsonl_tt" }},
		{"sqlite part name", func(c *Case) { c.Opts.SQLite, c.Opts.SQLTable = "/out/o.sqlite", "third_part2"; small(c) }},
		{"all", func(c *Case) { c.allOut(); trans(c); c.Opts.SQLTable = "full" }},
		{"all listed", func(c *Case) {
			c.Opts.Output = "/out/o.csv,/out/o.raw.gz,/out/o.sqlite"
			small(c)
			c.Opts.SQLTable = "listed"
		}},
		{"default", func(c *Case) {}},
		{"default small", func(c *Case) { small(c) }},
		{"both inputs", func(c *Case) { c.Files = append(c.Files, File{smallFile, smallData}); c.Opts.CSV = "/out/o.csv" }},
		{"selected", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Cfg.IncludeKeys = []string{".b"} }},
		{"window", func(c *Case) { c.Opts.CSV, c.Opts.Raw, c.Opts.MaxLines = "/out/o.csv", "/out/o.raw", 1 }},
		{"config file", func(c *Case) {
			c.Opts.CSV, c.Opts.ConfigFile = "/out/o.csv", "/in/cfg.json"
			c.Extra = []File{{"/in/cfg.json", `{"includeKeys":[".a"]}`}}
		}},
		{"flat", func(c *Case) { c.Opts.ShowFlat = true }},
		{"hier", func(c *Case) { c.Opts.ShowHier = true; trans(c) }},
		{"info", func(c *Case) { c.Opts.ShowInfo = true; small(c) }},
		{"schema", func(c *Case) { c.Opts.ShowSchema = true }},
		{"csv and info", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.ShowInfo = true; trans(c) }},
		{"version", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.Args = append(c.Opts.Args, "-version") }},
		{"no input", func(c *Case) { c.Opts.CSV = "/out/o.csv"; c.Opts.NoInput = true }},
		{"nop", func(c *Case) { c.Opts.CSV, c.Opts.Raw, c.Opts.PG = "<nop>", "<nop>", "<nop>"; trans(c) }},
		{"missing", func(c *Case) {
			c.allOut()
			c.Opts.SQLite = ""
			c.Files = append(c.Files, File{"/in/none.log", "x"})
			c.set("missing", "/in/none.log")
		}},
		{"bad config", func(c *Case) {
			c.Opts.CSV, c.Opts.Raw = "/out/o.csv", "/out/o.raw"
			c.Opts.Args = append(c.Opts.Args, "-config", "{")
		}},
		{"bad regex", func(c *Case) {
			c.Opts.CSV, c.Opts.PG = "/out/o.csv", "/out/o.sql"
			c.Opts.MatchLinePrefix = "("
		}},
		{"write fails", func(c *Case) {
			c.Opts.CSV = "/out/o.csv"
			c.Faults = []vos.Fault{{Path: "/out/o.csv", Op: "write", Partial: 20}}
		}},
		{"read fails", func(c *Case) {
			c.Opts.CSV, c.Opts.Raw = "/out/o.csv", "/out/o.raw"
			c.Faults = []vos.Fault{{Path: bigFile, Op: "read", Nth: 1}}
		}},
		{"line too long", func(c *Case) { c.Opts.CSV, c.Opts.PG, c.Opts.BufSize = "/out/o.csv", "/out/o.sql", 100 }},
	}
}

// reports tells runs that only print.
func reports(c *Case) bool {
	csv, raw, sqlite, pg := c.Opts.outputs()

	return csv+raw+sqlite+pg == "" && (c.Opts.ShowFlat || c.Opts.ShowHier || c.Opts.ShowInfo || c.Opts.ShowSchema)
}

func stepCase(name string) *Case {
	for _, s := range fileSteps() {
		if s.name == name {
			c := in(bigData)
			c.KeepDB = true
			s.f(c)

			return c
		}
	}

	return nil
}

var fileContents = []string{"empty", "same", "longer", "shorter", "other"}

// fileContent makes what a file holds before a run that leaves data.
func fileContent(kind string, data []byte) string {
	switch kind {
	case "same":
		return string(data)
	case "longer":
		return string(data) + rep("the rest of the file\n", 300)
	case "shorter":
		return string(data[:len(data)/2])
	case "other":
		return rep("x", len(data)+1)
	}

	return ""
}

func casesFiles(g *Gen) {
	steps := fileSteps()

	for _, s := range steps {
		for _, k := range fileContents {
			g.add(func() *Case {
				c := stepCase(s.name)
				c.Tag = "content " + k

				return c
			})
		}
	}

	depth := 2
	if g.thorough {
		depth = 3
	}

	var rec func(hist []string)

	rec = func(hist []string) {
		for _, s := range steps {
			g.add(func() *Case {
				c := stepCase(s.name)
				c.Tag = "history"
				c.set("before", strings.Join(hist, ","))

				return c
			})

			if len(hist)+1 < depth {
				rec(append(append([]string(nil), hist...), s.name))
			}
		}
	}

	rec(nil)

	if !g.thorough {
		// Three runs over the same few files.
		few := []string{"csv", "csv small transposed", "csv table", "gz small", "raw to csv", "sqlite", "sqlite other", "sqlite small", "sqlite name", "all", "default", "write fails", "missing", "info"}
		for _, a := range few {
			for _, b := range few {
				for _, d := range few {
					g.add(func() *Case {
						c := stepCase(d)
						c.Tag = "history"
						c.set("before", a+","+b)

						return c
					})
				}
			}
		}
	}

	overlaps(g)
	linked(g)
}

// overlaps are runs that name a file more than once, or nearly so.
func overlaps(g *Gen) {
	names := []string{
		"/in/a.log", "/in/../in/a.log", "/in//a.log", "/in/b.log", "/out/o.csv", "/out/./o.csv", "/out/o_tt.csv", "/out/x/../o_tt.csv", "/out/O.csv", "/out/o", "/out/o_tt",
		"/in/a_tt.log", "/in/a.log.csv", "/out/o.csv.gz", "/out/o.csv_tt.gz", "<nop>", "/in/a_tt.csv", "/a.log",
	}

	kinds := []func(c *Case, fn string){
		func(c *Case, fn string) { c.Opts.CSV = fn },
		func(c *Case, fn string) { c.Opts.Raw = fn },
		func(c *Case, fn string) { c.Opts.PG = fn },
	}

	inputs := [][]string{{"/in/a.log"}, {"/in/a.log", "/in/b.log"}, {"/in/a.log.csv", "/in/a.log"}, {"/in/a.log", "/in/a_tt.log"}, {"/in/./a.log", "/in/a.log.csv"}}

	mk := func(ins []string, f func(c *Case)) {
		g.add(func() *Case {
			c := &Case{KeepDB: true, Tag: "overlap"}
			for _, n := range ins {
				c.Files = append(c.Files, File{n, bigData})
			}

			c.Cfg.Transpose = map[string]string{".t": "tt", ".none": "nn"}
			f(c)

			return c
		})
	}

	for _, ins := range inputs {
		mk(ins, func(c *Case) {})
		mk(ins, func(c *Case) { c.Opts.NoInput = true })
		mk(ins, func(c *Case) { c.Opts.ShowFlat = true })

		for i, n1 := range names {
			for _, k1 := range kinds {
				mk(ins, func(c *Case) { k1(c, n1) })
			}

			mk(ins, func(c *Case) { c.Opts.Output = n1 + ".csv" })
			mk(ins, func(c *Case) { c.Opts.CSV = n1; c.Cfg = Cfg{IncludeKeys: []string{".a"}} })

			for j, n2 := range names {
				mk(ins, func(c *Case) { c.Opts.CSV, c.Opts.Raw = n1, n2 })
				mk(ins, func(c *Case) { c.Opts.PG, c.Opts.Raw = n1, n2 })

				if (i+j)%3 == 0 || g.thorough {
					mk(ins, func(c *Case) { c.Opts.PG, c.Opts.CSV = n1, n2; c.Cfg = Cfg{IncludeKeys: []string{".a"}} })
					mk(ins, func(c *Case) { c.Opts.CSV, c.Opts.Raw, c.Cfg = n1, n2, Cfg{} })
				}
			}
		}
	}
}

// linked are runs over files that have several names.
func linked(g *Gen) {
	exists := []File{{"/in/a.log", bigData}, {"/in/b.log", smallData}, {"/out/e.csv", "what was there"}}
	links := []File{
		{"/in/l.log", "/in/a.log"}, {"/out/l1.csv", "/in/a.log"}, {"/out/l2.csv", "/out/e.csv"}, {"/out/l3.csv", "/out/e.csv"},
		{"/out/p_tt.csv", "/in/a.log"}, {"/out/q_tt.csv", "/out/e.csv"}, {"/out/l4.gz", "/in/b.log"},
	}
	outs := []string{"", "/in/a.log", "/out/l1.csv", "/out/l2.csv", "/out/l3.csv", "/out/e.csv", "/out/p.csv", "/out/q.csv", "/out/l4.gz", "/out/new.csv"}

	for _, ins := range [][]string{{"/in/a.log"}, {"/in/l.log"}, {"/in/b.log"}, {"/in/a.log", "/in/l.log"}, {"/in/b.log", "/in/l.log"}} {
		for _, csv := range outs {
			for _, raw := range outs {
				for _, pg := range outs {
					for _, tr := range []bool{false, true} {
						if csv+raw+pg == "" || (pg != "" && csv != "" && raw != "" && !g.thorough) {
							continue
						}

						g.add(func() *Case {
							c := &Case{KeepDB: true, Tag: "links", Links: links}

							for _, e := range exists {
								used := false
								for _, n := range ins {
									used = used || n == e.Name
								}

								if !used {
									c.Extra = append(c.Extra, e)
								}
							}

							for _, n := range ins {
								f := File{n, bigData}
								if n == "/in/b.log" {
									f.Data = smallData
								}

								c.Files = append(c.Files, f)
							}

							c.Opts.CSV, c.Opts.Raw, c.Opts.PG = csv, raw, pg

							if tr {
								c.Cfg.Transpose = map[string]string{".t": "tt"}
							}

							return c
						})
					}
				}
			}
		}
	}
}

func checkLinks(c *Case, o *Obs) string {
	name := func(fn string) string {
		for _, l := range c.Links {
			if l.Name == fn {
				return l.Data
			}
		}

		return fn
	}

	was := map[string]string{}
	for _, f := range append(append([]File(nil), c.Files...), c.Extra...) {
		was[name(f.Name)] = f.Data
	}

	ins, outs, twice := map[string]bool{}, map[string]bool{}, false

	for _, f := range c.Files {
		ins[name(f.Name)] = true
	}

	for _, fn := range written(c) {
		n := name(fn)
		twice = twice || ins[n] || outs[n]
		outs[n] = true
	}

	if twice != o.failed() || (!twice && !o.ok()) {
		return fmt.Sprintf("a file is named twice: %v, the run ended with %s", twice, o.status())
	}

	for _, fn := range sortedKeys(o.All) {
		n := name(fn)
		data, ok := was[n]

		switch {
		case !twice && outs[n]:
			if string(o.All[fn]) == data {
				return "nothing is written to " + fn
			}
		case !ok:
			return "unexpected file " + fn
		case string(o.All[fn]) != data:
			return fmt.Sprintf("%s holds %q after the run", fn, clip(string(o.All[fn])))
		}
	}

	return ""
}

// written lists the files that a run over transposable inputs may write.
func written(c *Case) []string {
	csv, raw, _, pg := c.Opts.outputs()

	if csv+raw+pg == "" && c.Opts.SQLite == "" && c.Opts.Output == "" && !reports(c) && !c.Opts.NoInput {
		csv = c.Files[0].Name + ".csv"
	}

	var fs []string

	for _, fn := range []string{csv, raw} {
		if fn == "" || fn == "<nop>" {
			continue
		}

		fs = append(fs, path.Clean(fn))

		for _, k := range sortedKeys(c.Cfg.Transpose) {
			if k == ".t" && len(c.Cfg.IncludeKeys) == 0 {
				fs = append(fs, trName(fn, c.Cfg.Transpose[k]))
			}
		}
	}

	if pg != "" && pg != "<nop>" {
		fs = append(fs, path.Clean(pg))
	}

	return fs
}

// overlapping tells whether one file is named twice, at least once for output.
func overlapping(c *Case) bool {
	seen := map[string]bool{}

	if !c.Opts.NoInput {
		for _, f := range c.Files {
			seen[path.Clean(f.Name)] = true
		}
	}

	for _, fn := range written(c) {
		if seen[fn] {
			return true
		}

		seen[fn] = true
	}

	return false
}

func checkOverlap(x *Ctx, o *Obs) string {
	c := x.c

	if !overlapping(c) {
		if !o.ok() {
			return "no file is named twice, the run ended with " + o.status()
		}

		for _, f := range c.Files {
			if n := path.Clean(f.Name); string(o.All[n]) != f.Data {
				return fmt.Sprintf("input %s holds %q after the run", n, clip(string(o.All[n])))
			}
		}

		want := map[string]bool{}
		for _, fn := range written(c) {
			want[fn] = true

			if _, ok := o.Files[fn]; !ok {
				return "no file " + fn
			}
		}

		for fn := range o.Files {
			if !want[fn] {
				return "unexpected file " + fn
			}
		}

		return ""
	}

	if !o.failed() {
		return "a file is named twice, the run ended with " + o.status()
	}

	// Files that exist are left alone.
	b := c.clone()

	for _, fn := range written(c) {
		known := false
		for _, f := range c.Files {
			known = known || path.Clean(f.Name) == fn
		}

		if !known {
			b.Extra = append(b.Extra, File{fn, "what was there"})
		}
	}

	for _, ob := range []*Obs{o, b.exec(b.basePlan())} {
		if !ob.failed() {
			return "a file is named twice, the run over files that exist ended with " + ob.status()
		}

		for _, fn := range sortedKeys(ob.All) {
			want := "what was there"

			for _, f := range c.Files {
				if path.Clean(f.Name) == fn {
					want = f.Data
				}
			}

			if string(ob.All[fn]) != want {
				return fmt.Sprintf("a file is named twice, %s holds %q after the run is refused", fn, clip(string(ob.All[fn])))
			}
		}
	}

	return ""
}

// disk is a state of the file system.
type disk struct {
	files map[string]string
	db    []byte
}

func (d disk) over(c *Case) *Case {
	n := c.clone()
	n.Extra = nil

	used := map[string]bool{}
	for _, f := range c.Files {
		used[f.Name] = true
	}

	for _, fn := range sortedKeys(d.files) {
		if !used[fn] {
			n.Extra = append(n.Extra, File{fn, d.files[fn]})
		}
	}

	for _, f := range c.Extra {
		if _, ok := d.files[f.Name]; !ok {
			n.Extra = append(n.Extra, f)
		}
	}

	if n.Opts.SQLite != "" || strings.Contains(n.Opts.Output, ".sqlite") {
		n.DBBefore = d.db
	}

	return n
}

func (d disk) after(c *Case, o *Obs) disk {
	n := disk{map[string]string{}, d.db}
	for fn, b := range o.All {
		n.files[fn] = string(b)
	}

	if _, _, db, _ := c.Opts.outputs(); db != "" {
		n.db = o.DBFile
	}

	return n
}

func checkFiles(x *Ctx, o *Obs) string {
	c := x.c

	if c.Tag == "links" {
		return checkLinks(c, o)
	}

	if c.Tag == "overlap" {
		return checkOverlap(x, o)
	}

	d := disk{files: map[string]string{bigFile: bigData, smallFile: smallData}}

	// The run in an empty directory writes what it is asked for.
	want := map[string]bool{}
	for _, fn := range written(c) {
		want[fn] = true

		if _, ok := o.Files[fn]; !ok && o.ok() && c.Tag != "version" && !c.Opts.NoInput && len(c.Opts.Args) == 0 {
			return "no file " + fn
		}
	}

	for fn := range o.Files {
		if !want[fn] {
			return "unexpected file " + fn
		}
	}

	_, _, dbName, _ := c.Opts.outputs()

	if c.Tag == "history" {
		for _, s := range strings.Split(c.Aux["before"], ",") {
			if s == "" {
				continue
			}

			p := d.over(stepCase(s))
			d = d.after(p, p.exec(p.basePlan()))
		}
	} else {
		k := strings.TrimPrefix(c.Tag, "content ")

		for fn, b := range o.Files {
			d.files[fn] = fileContent(k, b)
		}

		// A report may not even touch a default output.
		for _, fn := range []string{"/in/a.log.csv", "/in/b.log.csv", "/out/o_tt.csv", "/out/unrelated"} {
			if _, ok := d.files[fn]; !ok {
				d.files[fn] = fileContent(k, []byte("unrelated"))
			}
		}

		if k == "other" {
			d.db = []byte(rep("not a database", 200))
		}
	}

	last := d.over(c)
	ol := last.exec(last.basePlan())

	var before map[string]Table

	dbFits := true

	if dbName != "" && d.db != nil {
		b := disk{db: d.db}.tables(dbName)
		before = b

		if b == nil {
			dbFits = false
		}

		for t := range o.DB {
			if _, ok := b[t]; ok {
				dbFits = false
			}
		}
	}

	if dbFits && o.status() != ol.status() {
		return fmt.Sprintf("in an empty directory the run ended with %s, over existing files with %s", o.status(), ol.status())
	}

	if !dbFits && !ol.failed() {
		return "the database can not take the table, the run ended with " + ol.status()
	}

	if dbFits && o.Stdout != ol.Stdout {
		return fmt.Sprintf("in an empty directory the run printed %q, over existing files %q", clip(o.Stdout), clip(ol.Stdout))
	}

	for _, fn := range sortedKeys(ol.All) {
		now := string(ol.All[fn])
		fresh, out := o.Files[fn]
		old, was := d.files[fn]

		for _, f := range c.Extra {
			if f.Name == fn && !was {
				old, was = f.Data, true
			}
		}

		switch {
		case out && dbFits && now != string(fresh):
			return fmt.Sprintf("%s holds %q after the run over existing files, and %q in an empty directory", fn, clip(now), clip(string(fresh)))
		case !out && !was:
			return fmt.Sprintf("file %s appears", fn)
		case !out && now != old:
			return fmt.Sprintf("file %s is not an output, it held %q and holds %q", fn, clip(old), clip(now))
		}
	}

	for _, fn := range append(sortedKeys(d.files), sortedKeys(o.Files)...) {
		if _, ok := ol.All[fn]; !ok && dbFits {
			return fmt.Sprintf("file %s is gone", fn)
		}
	}

	if dbName != "" && d.db != nil {
		if before == nil {
			if string(ol.DBFile) != string(d.db) {
				return "a file that is not a database is changed"
			}

			return ""
		}

		for _, t := range sortedKeys(before) {
			if fmt.Sprint(before[t]) != fmt.Sprint(ol.DB[t]) {
				return fmt.Sprintf("table %s held %v and holds %v after another run", t, before[t], ol.DB[t])
			}
		}

		for _, t := range sortedKeys(o.DB) {
			if dbFits && fmt.Sprint(o.DB[t]) != fmt.Sprint(ol.DB[t]) {
				return fmt.Sprintf("in an empty database table %s holds %v, next to other tables %v", t, o.DB[t], ol.DB[t])
			}
		}

		for _, t := range sortedKeys(ol.DB) {
			_, a := before[t]
			_, b := o.DB[t]

			if !a && !b {
				return "unexpected table " + t
			}
		}
	}

	return ""
}

// tables reads the database of a state, nil for what is not a database.
func (d disk) tables(name string) map[string]Table {
	fn := vsql.Path(name) + ".before"

	if err := os.WriteFile(fn, d.db, 0o600); err != nil {
		return nil
	}

	defer os.Remove(fn)

	t, msg := readDB(fn)
	if msg != "" {
		return nil
	}

	return t
}
