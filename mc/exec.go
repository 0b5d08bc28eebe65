package main

import (
	"database/sql"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/vearutop/flatjsonl/zzverif/csvequals"
	"github.com/vearutop/flatjsonl/zzverif/rootmain"
	"github.com/vearutop/flatjsonl/zzverif/rt"
	"github.com/vearutop/flatjsonl/zzverif/vlog"
	"github.com/vearutop/flatjsonl/zzverif/vos"
	"github.com/vearutop/flatjsonl/zzverif/vruntime"
	"github.com/vearutop/flatjsonl/zzverif/vsql"
)

// Cell is a database value.
type Cell struct {
	T string // storage class: null integer real text blob
	V string
}

// Table is a database table.
type Table struct {
	Name  string
	SQL   string
	Cols  []string
	Types []string // declared
	Rows  [][]Cell
}

// Obs is everything a user can observe of a run.
type Obs struct {
	rt.Result
	Stdout   string
	Stderr   string
	Files    map[string][]byte
	All      map[string][]byte // with inputs
	DBFile   []byte            // the database as a file, when it is kept between runs
	DB       map[string]Table
	DBErr    string
	DBRaw    string // the database file
	Hits     int
	SQLHits  int
	Counts   map[string]int
	SQLCount map[string]int
	Logs     []string
	Said     []string // with the builtin println
	InPeak   int      // inputs open at once
	Left     *Left    // by processors of the library
}

// ok tells whether the program claimed success.
func (o *Obs) ok() bool { return o.Outcome == rt.OutDone || o.Outcome == rt.OutExit && o.ExitCode == 0 }

// failed tells whether the program reported failure in an orderly way.
func (o *Obs) failed() bool { return o.Outcome == rt.OutExit && o.ExitCode != 0 }

func (o *Obs) status() string {
	s := o.Outcome
	if o.Outcome == rt.OutExit {
		s += " " + itoa(o.ExitCode)
	}

	if o.Detail != "" {
		d := o.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}

		s += " (" + d + ")"
	}

	return s
}

func (c *Case) basePlan() rt.Plan {
	return rt.Plan{MapMode: c.Map, Window: c.Window, Fine: c.Fine, Stmts: c.Stmts, NoTime: !c.Early, Free: freeMode || c.Free, MaxStep: c.MaxStep}
}

// freeMode: the scheduling rewrites are not compiled in.
var freeMode bool

// exec runs the real program once.
func (c *Case) exec(plan rt.Plan) *Obs {
	files := map[string][]byte{}
	for _, f := range c.Files {
		if c.Aux["missing"] != f.Name {
			files[f.Name] = []byte(f.Data)
		}
	}

	for _, f := range c.Extra {
		files[f.Name] = []byte(f.Data)
	}

	if c.Lib != nil && c.Lib.Second != nil {
		for _, f := range c.Lib.Second.Files {
			files[f.Name] = []byte(f.Data)
		}
	}

	fsys := vos.NewFS(files)

	for _, l := range c.Links {
		fsys.Link(l.Data, l.Name)
	}

	fsys.SetFaults(c.Faults)
	fsys.LogOps = c.LogOps

	if len(c.Chunk) > 0 {
		ch := c.Chunk
		fsys.Chunk = func(_ string, n int) int { return ch[n%len(ch)] }
	}

	if len(c.Files) > 0 {
		first := c.Files[0].Name
		fsys.OnPass = func(p string, n int) {
			if p == first {
				rt.SetPhase(n + 1)
			}
		}
	}

	vos.Current = fsys
	vlog.Lines = nil
	left = nil
	vsql.Reset(c.SQLOp, c.SQLAt)

	heap := c.Heap
	vruntime.Reset(func(i int) uint64 {
		const over = 1 << 50

		if heap == "" {
			return 0
		}

		if i >= len(heap) {
			i = len(heap) - 1
		}

		limit := c.Opts.MemLimit
		if limit == 0 {
			limit = 1000
		}

		switch heap[i] {
		case '?':
			return over * uint64(rt.Choose(2, "heap"))
		case 'y':
			return over
		case 'a': // at the limit
			return uint64(limit) << 20
		case 'b': // just over it
			return uint64(limit)<<20 + 1
		}

		return 0
	})

	_, _, dbName, _ := c.Opts.outputs()
	if dbName != "" {
		_ = os.Remove(vsql.Path(dbName))

		if c.KeepDB && c.DBBefore != nil {
			_ = os.WriteFile(vsql.Path(dbName), c.DBBefore, 0o600)
		}
	}

	args := c.args()
	vos.Args = append([]string{"flatjsonl"}, args...)
	os.Args = vos.Args
	flag.CommandLine = flag.NewFlagSet("flatjsonl", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.CommandLine.Usage = func() {}
	flag.Usage = func() {}

	body := rootmain.Main
	if c.Entry == "csvequals" {
		body = csvequals.Main
	}

	if c.Entry == "lib" {
		body = libMain(c)
	}

	res := rt.Run(plan, body)

	o := &Obs{Result: res, Stdout: fsys.Out(), Stderr: fsys.Err(), Files: fsys.Outputs(), Hits: fsys.Hits, SQLHits: vsql.Hits, Logs: vlog.Lines, Said: fsys.Said(), InPeak: fsys.InPeak, Left: left}
	if c.LogOps {
		o.Counts = fsys.Counts()
		o.SQLCount = vsql.Counts()
	}

	if c.KeepDB {
		o.All = fsys.All()

		if dbName != "" {
			o.DBFile, _ = os.ReadFile(vsql.Path(dbName))
		}
	}

	if dbName != "" && !rt.RaceEnabled && (o.ok() || c.KeepDB) {
		if c.RawDB {
			o.DBRaw = dbSum(dbName)
		}

		o.DB, o.DBErr = readDB(vsql.Path(dbName))
	}

	return o
}

func readDB(fn string) (map[string]Table, string) {
	if _, err := os.Stat(fn); err != nil {
		return nil, "no database file"
	}

	db, err := sql.Open("sqlite", fn)
	if err != nil {
		return nil, err.Error()
	}

	defer db.Close()

	rows, err := db.Query("SELECT name, sql FROM sqlite_master WHERE type='table' ORDER BY name")
	if err != nil {
		return nil, err.Error()
	}

	res := map[string]Table{}

	for rows.Next() {
		var t Table
		if err := rows.Scan(&t.Name, &t.SQL); err != nil {
			return nil, err.Error()
		}

		res[t.Name] = t
	}

	_ = rows.Close()

	for _, n := range sortedKeys(res) {
		t := res[n]

		r, err := db.Query(`SELECT * FROM "` + strings.ReplaceAll(n, `"`, `""`) + `" ORDER BY rowid`)
		if err != nil {
			return nil, err.Error()
		}

		t.Cols, _ = r.Columns()

		if ct, err := r.ColumnTypes(); err == nil {
			for _, x := range ct {
				t.Types = append(t.Types, x.DatabaseTypeName())
			}
		}

		for r.Next() {
			vals := make([]any, len(t.Cols))
			ps := make([]any, len(t.Cols))

			for i := range vals {
				ps[i] = &vals[i]
			}

			if err := r.Scan(ps...); err != nil {
				return nil, err.Error()
			}

			row := make([]Cell, len(vals))

			for i, v := range vals {
				switch v := v.(type) {
				case nil:
					row[i] = Cell{"null", ""}
				case int64:
					row[i] = Cell{"integer", strconv.FormatInt(v, 10)}
				case float64:
					row[i] = Cell{"real", strconv.FormatFloat(v, 'g', -1, 64)}
				case string:
					row[i] = Cell{"text", v}
				case []byte:
					row[i] = Cell{"blob", string(v)}
				default:
					row[i] = Cell{fmt.Sprintf("%T", v), fmt.Sprint(v)}
				}
			}

			t.Rows = append(t.Rows, row)
		}

		_ = r.Close()
		res[n] = t
	}

	return res, ""
}

// scratch prepares the database directory of this process.
func scratch() (string, error) {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}

	d, err := os.MkdirTemp(base, "fjmc")
	if err != nil {
		d, err = os.MkdirTemp(os.TempDir(), "fjmc")
	}

	vsql.Dir = d

	return d, err
}

func (o *Obs) fileNames() []string {
	r := []string{}
	for k := range o.Files {
		r = append(r, filepath.Clean(k))
	}

	sort.Strings(r)

	return r
}
