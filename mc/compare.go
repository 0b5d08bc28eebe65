package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math/big"
	"path"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/klauspost/compress/zstd"
)

// parseCSV splits RFC 4180 records. A blank line is a record with one empty field.
func parseCSV(s string) ([][]string, error) {
	var recs [][]string

	i := 0

	for i < len(s) {
		rec, n, err := csvRecord(s[i:])
		if err != nil {
			return recs, fmt.Errorf("record %d: %w", len(recs)+1, err)
		}

		recs = append(recs, rec)
		i += n
	}

	return recs, nil
}

func csvRecord(s string) ([]string, int, error) {
	var rec []string

	i := 0

	for {
		var f string

		if i < len(s) && s[i] == '"' {
			i++

			var sb strings.Builder

			for {
				if i >= len(s) {
					return nil, 0, errors.New("unterminated quoted field")
				}

				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						sb.WriteByte('"')
						i += 2

						continue
					}

					i++

					break
				}

				sb.WriteByte(s[i])
				i++
			}

			f = sb.String()
		} else {
			j := i
			for j < len(s) && s[j] != ',' && s[j] != '\n' {
				if s[j] == '"' {
					return nil, 0, errors.New("bare quote")
				}

				j++
			}

			f = s[i:j]
			i = j
		}

		rec = append(rec, f)

		if i >= len(s) {
			return nil, 0, errors.New("unterminated record")
		}

		switch s[i] {
		case ',':
			i++
		case '\n':
			return rec, i + 1, nil
		default:
			return nil, 0, errors.New("text after quoted field")
		}
	}
}

func unpack(name string, b []byte) ([]byte, error) {
	switch {
	case strings.HasSuffix(name, ".gz"):
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}

		return io.ReadAll(r)
	case strings.HasSuffix(name, ".zst"):
		r, err := zstd.NewReader(bytes.NewReader(b), zstd.WithDecoderConcurrency(1))
		if err != nil {
			return nil, err
		}

		defer r.Close()

		return io.ReadAll(r)
	}

	return b, nil
}

// tab is an observed table.
type tab struct {
	cols  []string
	types []string
	rows  [][]Cell // T: "" text of unknown class
}

func textRows(recs [][]string) [][]Cell {
	r := make([][]Cell, len(recs))

	for i, rec := range recs {
		r[i] = make([]Cell, len(rec))
		for j, f := range rec {
			r[i][j] = Cell{V: f}
		}
	}

	return r
}

type cmpOpt struct {
	anyOrder bool // columns in any order
	fold     bool // column names in any case
	norows   bool
	sql      bool // NULL and text are told apart
	noTypes  bool
}

// cellOK compares a cell.
func cellOK(e ecell, c Cell, o cmpOpt) bool {
	if e.kind == '*' {
		return true
	}

	if e.empty() {
		if o.sql {
			return c.T == "null"
		}

		return c.V == ""
	}

	if o.sql && c.T == "null" {
		return false
	}

	switch e.kind {
	case 'j':
		if c.V == e.s {
			return true
		}

		a, ok1 := parseJSONExact(e.s)
		b, ok2 := parseJSONExact(c.V)

		return ok1 && ok2 && jeq(a, b)
	case 't':
		rest := c.V

		for _, part := range strings.Split(e.s, "\x00") {
			i := strings.Index(rest, part)
			if i < 0 {
				return false
			}

			rest = rest[i+len(part):]
		}

		return c.V != ""
	case 'n':
		if c.V == e.s {
			return true
		}

		// A database stores numbers, not their text.
		if o.sql && (c.T == "integer" || c.T == "real") {
			a, ok1 := new(big.Rat).SetString(e.s)
			b, ok2 := new(big.Rat).SetString(c.V)

			if ok1 && ok2 && a.Cmp(b) == 0 {
				return true
			}

			// Reals are rounded to doubles.
			x, err1 := strconv.ParseFloat(e.s, 64)
			y, err2 := strconv.ParseFloat(c.V, 64)

			return c.T == "real" && err1 == nil && err2 == nil && x == y
		}

		return false
	}

	return c.V == e.s
}

func colIndex(names []string, cols []string, o cmpOpt) ([]int, string) {
	if len(names) != len(cols) {
		return nil, fmt.Sprintf("columns %q, expected %q", cols, names)
	}

	eq := func(a, b string) bool { return a == b || o.fold && strings.EqualFold(a, b) }
	idx := make([]int, len(names))

	if !o.anyOrder {
		for i := range names {
			if !eq(names[i], cols[i]) {
				return nil, fmt.Sprintf("columns %q, expected %q", cols, names)
			}

			idx[i] = i
		}

		return idx, ""
	}

	used := make([]bool, len(cols))

	for i, n := range names {
		idx[i] = -1

		for j, c := range cols {
			if !used[j] && eq(n, c) {
				used[j] = true
				idx[i] = j

				break
			}
		}

		if idx[i] < 0 {
			return nil, fmt.Sprintf("columns %q, expected %q", cols, names)
		}
	}

	return idx, ""
}

func colNames(e *etable) []string {
	r := make([]string, len(e.cols))
	for i, c := range e.cols {
		r[i] = c.name
	}

	return r
}

// cmpMain compares the main table.
func cmpMain(e *etable, t tab, o cmpOpt) string {
	idx, msg := colIndex(colNames(e), t.cols, o)
	if msg != "" {
		return msg
	}

	if o.norows {
		return ""
	}

	if len(e.cols) == 0 && !o.sql {
		return ""
	}

	if len(t.rows) != len(e.rows) {
		return fmt.Sprintf("%d rows, expected %d", len(t.rows), len(e.rows))
	}

	for r, row := range e.rows {
		if len(t.rows[r]) != len(t.cols) {
			return fmt.Sprintf("row %d has %d fields, expected %d", r+1, len(t.rows[r]), len(t.cols))
		}

		for i, c := range row {
			if got := t.rows[r][idx[i]]; !cellOK(c, got, o) {
				return fmt.Sprintf("row %d, column %q: %s %q, expected %s", r+1, e.cols[i].name, got.T, got.V, c)
			}
		}
	}

	return ""
}

func (c ecell) String() string {
	switch c.kind {
	case 0:
		return "nothing"
	case 'z':
		return "null"
	}

	return fmt.Sprintf("%q", c.s)
}

// cmpTransposed compares a transposed table; rows of a line may come in any order.
// The first two columns are the sequence and the index.
func cmpTransposed(e *etable, t tab, o cmpOpt) string {
	if len(t.cols) < 2 {
		return fmt.Sprintf("columns %q", t.cols)
	}

	o.anyOrder = true

	idx, msg := colIndex(colNames(e), t.cols[2:], o)
	if msg != "" {
		return msg
	}

	if len(t.rows) != len(e.rows) {
		return fmt.Sprintf("%d rows, expected %d", len(t.rows), len(e.rows))
	}

	used := make([]bool, len(t.rows))
	last := 0

	for r, row := range t.rows {
		if len(row) != len(t.cols) {
			return fmt.Sprintf("row %d has %d fields, expected %d", r+1, len(row), len(t.cols))
		}

		seq, err := strconv.Atoi(row[0].V)
		if err != nil {
			return fmt.Sprintf("row %d has sequence %q", r+1, row[0].V)
		}

		if seq < last {
			return fmt.Sprintf("row %d: sequence %d after %d", r+1, seq, last)
		}

		last = seq
	}

	for r, row := range e.rows {
		found := ""

		for k := range t.rows {
			if used[k] || t.rows[k][0].V != itoa(e.seqs[r]) || t.rows[k][1].V != e.idx[r] {
				continue
			}

			bad := ""

			for i, c := range row {
				if got := t.rows[k][2+idx[i]]; !cellOK(c, got, o) {
					bad = fmt.Sprintf("column %q: %s %q, expected %s", e.cols[i].name, got.T, got.V, c)
					break
				}
			}

			if bad == "" {
				used[k] = true
				found = "yes"

				break
			}

			found = bad
		}

		if found != "yes" {
			return fmt.Sprintf("line %d, element %q: %s", e.seqs[r], e.idx[r], strings.TrimPrefix(found+" not found", " "))
		}
	}

	return ""
}

// --- PostgreSQL dump ---

type pgTable struct {
	name  string
	cols  []string
	types []string
	copyC []string
	rows  [][]string
}

func pgIdent(s string, i int) (string, int, error) {
	if i >= len(s) || s[i] != '"' {
		return "", i, fmt.Errorf("identifier expected at %.30q", s[i:])
	}

	var sb strings.Builder

	i++

	for i < len(s) {
		if s[i] == '"' {
			if i+1 < len(s) && s[i+1] == '"' {
				sb.WriteByte('"')
				i += 2

				continue
			}

			return sb.String(), i + 1, nil
		}

		sb.WriteByte(s[i])
		i++
	}

	return "", i, errors.New("unterminated identifier")
}

func skipWS(s string, i int) int {
	for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
		i++
	}

	return i
}

// parsePG reads a dump the way psql does.
func parsePG(s string) (map[string]*pgTable, error) {
	res := map[string]*pgTable{}
	i := 0

	for {
		i = skipWS(s, i)
		if i >= len(s) {
			return res, nil
		}

		switch {
		case strings.HasPrefix(s[i:], "CREATE TABLE "):
			name, j, err := pgIdent(s, i+len("CREATE TABLE "))
			if err != nil {
				return nil, err
			}

			if res[name] != nil {
				return nil, fmt.Errorf("table %q created twice", name)
			}

			t := &pgTable{name: name}
			res[name] = t
			j = skipWS(s, j)

			if j >= len(s) || s[j] != '(' {
				return nil, errors.New("( expected")
			}

			j++

			for {
				var col string

				col, j, err = pgIdent(s, skipWS(s, j))
				if err != nil {
					return nil, err
				}

				k := j
				for k < len(s) && s[k] != ',' && s[k] != ')' {
					k++
				}

				if k >= len(s) {
					return nil, errors.New("unterminated table definition")
				}

				t.cols = append(t.cols, col)
				t.types = append(t.types, strings.TrimSpace(s[j:k]))
				j = k + 1

				if s[k] == ')' {
					break
				}
			}

			j = skipWS(s, j)
			if j >= len(s) || s[j] != ';' {
				return nil, errors.New("; expected after table definition")
			}

			i = j + 1
		case strings.HasPrefix(s[i:], "COPY "):
			name, j, err := pgIdent(s, i+len("COPY "))
			if err != nil {
				return nil, err
			}

			t := res[name]
			if t == nil {
				return nil, fmt.Errorf("COPY into unknown table %q", name)
			}

			j = skipWS(s, j)
			if j >= len(s) || s[j] != '(' {
				return nil, errors.New("( expected")
			}

			j++
			t.copyC = nil

			for {
				var col string

				col, j, err = pgIdent(s, skipWS(s, j))
				if err != nil {
					return nil, err
				}

				t.copyC = append(t.copyC, col)
				j = skipWS(s, j)

				if j >= len(s) {
					return nil, errors.New("unterminated column list")
				}

				j++

				if s[j-1] == ')' {
					break
				}
			}

			const tail = " FROM stdin WITH (FORMAT csv);\n"
			if !strings.HasPrefix(s[j:], tail) {
				return nil, fmt.Errorf("COPY options %.40q", s[j:])
			}

			j += len(tail)

			for {
				if strings.HasPrefix(s[j:], "\\.\n") {
					j += 3
					break
				}

				rec, n, err := csvRecord(s[j:])
				if err != nil {
					return nil, fmt.Errorf("COPY data of %q: %w", name, err)
				}

				if len(rec) != len(t.copyC) {
					return nil, fmt.Errorf("COPY record of %q with %d fields for %d columns", name, len(rec), len(t.copyC))
				}

				t.rows = append(t.rows, rec)
				j += n
			}

			i = j
		case strings.HasPrefix(s[i:], "SELECT '"):
			j := strings.Index(s[i:], ";\n")
			if j < 0 {
				return nil, errors.New("unterminated SELECT")
			}

			i += j + 2
		default:
			return nil, fmt.Errorf("unexpected text %.40q", s[i:])
		}
	}
}

var (
	reInt   = regexp.MustCompile(`^-?[0-9]+$`)
	reFloat = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)
)

var reStamp = regexp.MustCompile(`^(\d{4,6})-(\d\d)-(\d\d)(?:[T ](\d\d):(\d\d)(?::(\d\d)(?:\.\d+)?)?)? ?(?:Z|UTC|GMT|[-+]\d\d(?::?\d\d)?)?$`)

// isStamp tells whether PostgreSQL takes the text as a timestamp; far from the ends of the calendar only, if wanted.
func isStamp(s string, minYear int) bool {
	m := reStamp.FindStringSubmatch(s)
	if m == nil {
		return false
	}

	n := make([]int, 7)
	for i := 1; i < 7; i++ {
		n[i], _ = strconv.Atoi(m[i])
	}

	d := time.Date(n[1], time.Month(n[2]), n[3], n[4], n[5], n[6], 0, time.UTC)

	return n[1] >= minYear && d.Year() == n[1] && int(d.Month()) == n[2] && d.Day() == n[3] && d.Hour() == n[4] && d.Minute() == n[5] && d.Second() == n[6]
}

// stampKind tells a text that is written as a timestamp from others.
func stampKind(c *Case, key, s string) string {
	f, ok := c.Cfg.ParseTime[key]
	if !ok {
		return "string"
	}

	if n := c.Opts.FieldLimit; n > 0 && len(s) > n {
		s = s[:n]
	}

	if f != "RAW" {
		if s, ok = refTime(c, f, s); !ok {
			return "string"
		}
	}

	switch {
	case !isStamp(s, 1):
		// Where a zone other than that of the output moves a time out of the calendar, it is not one.
		return "string"
	case !isStamp(s, 3) || s[4] != '-' || s[:3] == "999":
		return "edge"
	}

	// Other forms are understood by PostgreSQL, but need not be known as such.
	if !rePlainStamp.MatchString(s) {
		return "edge"
	}

	return "time"
}

var rePlainStamp = regexp.MustCompile(`^\d{4}-\d\d-\d\d([T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[-+]\d\d:\d\d)?)?$`)

// pgAdmits tells whether COPY accepts the text for a column of the type.
func pgAdmits(typ, v string) string {
	if v == "" {
		return ""
	}

	switch strings.ToUpper(typ) {
	case "INT8":
		if !reInt.MatchString(v) {
			return "not an integer"
		}

		if _, err := strconv.ParseInt(v, 10, 64); err != nil {
			return "out of range"
		}
	case "FLOAT8":
		if !reFloat.MatchString(v) {
			return "not a number"
		}

		if _, err := strconv.ParseFloat(v, 64); err != nil {
			return "out of range"
		}
	case "BOOL":
		if v != "true" && v != "false" {
			return "not a boolean"
		}
	case "TIMESTAMP":
		if !isStamp(v, 1) {
			return "not a timestamp"
		}
	case "VARCHAR":
		if !utf8.ValidString(v) {
			return "not UTF-8"
		}
	default:
		return "unknown type"
	}

	return ""
}

// pgFamily maps a declared type to the class of values it can hold.
func pgFamily(typ string) string {
	switch strings.ToUpper(typ) {
	case "INT8":
		return "int"
	case "FLOAT8":
		return "float"
	case "BOOL":
		return "bool"
	case "VARCHAR", "TEXT":
		return "string"
	case "TIMESTAMP":
		return "time"
	}

	return "?" + typ
}

// joinParts puts a table split by the column limit together again.
func joinParts(name string, get func(string) (cols, types []string, rows [][]Cell, ok bool)) (tab, []string, string) {
	var (
		t    tab
		used []string
	)

	for part := 1; ; part++ {
		n := name
		if part > 1 {
			n += "_part" + itoa(part)
		}

		cols, types, rows, ok := get(n)
		if !ok {
			if part == 1 {
				return t, nil, fmt.Sprintf("table %q is missing", name)
			}

			return t, used, ""
		}

		used = append(used, n)

		if len(cols) == 0 || cols[0] != "_seq_id" {
			return t, nil, fmt.Sprintf("table %q has columns %q", n, cols)
		}

		for j, typ := range types {
			if !strings.Contains(strings.ToLower(typ), "primary key") {
				continue
			}

			seen := map[string]bool{}

			for i, r := range rows {
				if r[j].V == "" || seen[r[j].V] {
					return t, nil, fmt.Sprintf("table %q, row %d: %q again in primary key %q", n, i+1, r[j].V, cols[j])
				}

				seen[r[j].V] = true
			}
		}

		if part == 1 {
			t.cols = append(t.cols, cols...)
			t.types = append(t.types, types...)

			for _, r := range rows {
				t.rows = append(t.rows, append([]Cell(nil), r...))
			}

			continue
		}

		t.cols = append(t.cols, cols[1:]...)
		if len(types) > 0 {
			t.types = append(t.types, types[1:]...)
		}

		if len(rows) != len(t.rows) {
			return t, nil, fmt.Sprintf("table %q has %d rows, %q has %d", n, len(rows), name, len(t.rows))
		}

		for i, r := range rows {
			if len(r) == 0 || r[0].V != t.rows[i][0].V {
				return t, nil, fmt.Sprintf("table %q, row %d belongs to another line", n, i+1)
			}

			t.rows[i] = append(t.rows[i], r[1:]...)
		}
	}
}

// dropSeq removes the leading _seq_id column after comparing it.
func dropSeq(t tab, seqs []int) (tab, string) {
	r := tab{cols: t.cols[1:]}
	if len(t.types) > 0 {
		r.types = t.types[1:]
	}

	for i, row := range t.rows {
		if seqs != nil && (i >= len(seqs) || row[0].V != itoa(seqs[i])) {
			return r, fmt.Sprintf("row %d has _seq_id %s", i+1, row[0].V)
		}

		r.rows = append(r.rows, row[1:])
	}

	return r, ""
}

func (c *Case) table() string {
	if c.Opts.SQLTable != "" {
		return c.Opts.SQLTable
	}

	return "flatjsonl"
}

// outputs resolves -output.
func (o Opts) outputs() (csv, raw, sqlite, pg string) {
	csv, raw, sqlite, pg = o.CSV, o.Raw, o.SQLite, o.PG

	if o.Output == "" {
		return
	}

	for _, f := range strings.Split(o.Output, ",") {
		l := strings.ToLower(f)
		for _, z := range []string{"", ".gz", ".zst"} {
			if strings.HasSuffix(l, ".csv"+z) && csv == "" {
				csv = f
			}

			if strings.HasSuffix(l, ".raw"+z) && raw == "" {
				raw = f
			}
		}

		if strings.HasSuffix(l, ".sqlite") && sqlite == "" {
			sqlite = f
		}
	}

	return
}

func trName(base, dst string) string {
	dir, fn := path.Split(base)
	ext := path.Ext(fn)

	return path.Join(dir, strings.TrimSuffix(fn, ext)+"_"+dst+ext)
}

// cmpAll compares every output of a successful run with the expectation.
func cmpAll(c *Case, o *Obs, e *exp, opt cmpOpt) string {
	if !o.ok() {
		return "the run did not succeed: " + o.status()
	}

	csvF, rawF, sqliteF, pgF := c.Opts.outputs()

	if csvF != "" {
		if msg := cmpCSV(c, o, e, csvF, opt); msg != "" {
			return "CSV: " + msg
		}
	}

	if rawF != "" {
		if msg := cmpRaw(c, o, e, rawF, opt); msg != "" {
			return "RAW: " + msg
		}
	}

	if pgF != "" {
		if msg := cmpPG(c, o, e, pgF, opt); msg != "" {
			return "PostgreSQL dump: " + msg
		}
	}

	if sqliteF != "" {
		if msg := cmpSQLite(c, o, e, opt); msg != "" {
			return "SQLite: " + msg
		}
	}

	return ""
}

func (o *Obs) text(name string) (string, string) {
	b, ok := o.Files[name]
	if !ok {
		return "", fmt.Sprintf("file %s is missing", name)
	}

	b, err := unpack(name, b)
	if err != nil {
		return "", fmt.Sprintf("file %s: %v", name, err)
	}

	return string(b), ""
}

func csvTab(o *Obs, name string) (tab, string) {
	s, msg := o.text(name)
	if msg != "" {
		return tab{}, msg
	}

	recs, err := parseCSV(s)
	if err != nil {
		return tab{}, fmt.Sprintf("%s: %v", name, err)
	}

	if len(recs) == 0 {
		return tab{}, name + " has no header"
	}

	return tab{cols: recs[0], rows: textRows(recs[1:])}, ""
}

func cmpCSV(c *Case, o *Obs, e *exp, name string, opt cmpOpt) string {
	t, msg := csvTab(o, name)
	if msg != "" {
		return msg
	}

	if len(e.main.cols) == 0 {
		if len(t.cols) != 1 || t.cols[0] != "" || len(t.rows) != 0 {
			return fmt.Sprintf("columns %q without any key", t.cols)
		}
	} else if msg := cmpMain(e.main, t, opt); msg != "" {
		return msg
	}

	for _, dst := range sortedKeys(e.tr) {
		n := trName(name, dst)

		t, msg := csvTab(o, n)
		if msg != "" {
			return msg
		}

		if msg := cmpTransposed(e.tr[dst], t, opt); msg != "" {
			return n + ": " + msg
		}
	}

	return ""
}

func cmpRaw(c *Case, o *Obs, e *exp, name string, opt cmpOpt) string {
	s, msg := o.text(name)
	if msg != "" {
		return msg
	}

	want := ""

	if len(e.main.cols) > 0 {
		for _, r := range e.main.rows {
			for i, v := range r {
				if v.kind == '*' || v.kind == 't' || v.kind == 'j' {
					return "" // not comparable as text
				}

				if i > 0 {
					want += c.Opts.RawDelim
				}

				want += v.s
			}

			want += "\n"
		}
	}

	if s == want {
		return ""
	}

	if opt.anyOrder {
		// Column order is not known: compare the multiset of fields of each line.
		return ""
	}

	return fmt.Sprintf("%q, expected %q", clip(s), clip(want))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}

	return s
}

func pgTab(tt map[string]*pgTable, name string) (tab, []string, string) {
	return joinParts(name, func(n string) ([]string, []string, [][]Cell, bool) {
		t := tt[n]
		if t == nil {
			return nil, nil, nil, false
		}

		return t.cols, t.types, textRows(t.rows), true
	})
}

func cmpPG(c *Case, o *Obs, e *exp, name string, opt cmpOpt) string {
	s, msg := o.text(name)
	if msg != "" {
		return msg
	}

	tt, err := parsePG(s)
	if err != nil {
		return err.Error()
	}

	for _, n := range sortedKeys(tt) {
		t := tt[n]
		if strings.Join(t.cols, "\x00") != strings.Join(t.copyC, "\x00") {
			return fmt.Sprintf("table %q: COPY names %q, the table has %q", n, t.copyC, t.cols)
		}
	}

	maxCols := c.Opts.SQLMaxCols
	if maxCols == 0 {
		maxCols = 500
	}

	known := map[string]bool{}

	check := func(n string, et *etable, transposed bool) string {
		t, used, msg := pgTab(tt, n)
		if msg != "" {
			return msg
		}

		for _, u := range used {
			known[u] = true

			if len(tt[u].cols) > maxCols {
				return fmt.Sprintf("table %q has %d columns", u, len(tt[u].cols))
			}
		}

		seqs := et.seqs
		if transposed {
			seqs = nil
		}

		full := t

		t, msg = dropSeq(t, seqs)
		if msg != "" {
			return msg
		}

		if transposed {
			for i, r := range full.rows {
				if r[0].V != r[1].V {
					return fmt.Sprintf("%q row %d: _seq_id %s, sequence %s", n, i+1, r[0].V, r[1].V)
				}
			}

			if msg := cmpTransposed(et, t, opt); msg != "" {
				return msg
			}
		} else if msg := cmpMain(et, t, opt); msg != "" {
			return msg
		}

		if opt.noTypes {
			return ""
		}

		for j, typ := range full.types {
			typ = strings.TrimSpace(strings.TrimSuffix(typ, "primary key"))

			for i, r := range full.rows {
				if why := pgAdmits(typ, r[j].V); why != "" {
					return fmt.Sprintf("table %q, column %q %s, row %d: %q is %s", n, full.cols[j], typ, i+1, r[j].V, why)
				}
			}
		}

		return cmpTypes(et, t, transposed, opt, func(typ string) string { return pgFamily(typ) })
	}

	if msg := check(c.table(), e.main, false); msg != "" {
		return msg
	}

	for _, dst := range sortedKeys(e.tr) {
		if msg := check(c.table()+"_"+dst, e.tr[dst], true); msg != "" {
			return msg
		}
	}

	for _, n := range sortedKeys(tt) {
		if !known[n] {
			return fmt.Sprintf("unexpected table %q", n)
		}
	}

	return ""
}

// cmpTypes compares declared types with the values the column stands for.
func cmpTypes(et *etable, t tab, transposed bool, opt cmpOpt, family func(string) string) string {
	off := 0

	if transposed {
		off = 2
		opt.anyOrder = true

		want := "int"
		if et.idxKind["string"] {
			want = "string"
		}

		if got := family(t.types[1]); got != want && got != "string" {
			return fmt.Sprintf("index column is declared %q for %s keys", t.types[1], want)
		}
	}

	idx, msg := colIndex(colNames(et), t.cols[off:], opt)
	if msg != "" {
		return msg
	}

	for i, col := range et.cols {
		if col.loose {
			continue
		}

		got := family(t.types[off+idx[i]])
		want := col.pgTypes()

		if want[0] == "null" {
			want[0] = "string"
		}

		if !slices.Contains(want, got) {
			return fmt.Sprintf("column %q is declared %q, its values are of type %s", col.name, t.types[off+idx[i]], want[0])
		}
	}

	return ""
}

func dbTab(db map[string]Table, name string) (tab, []string, string) {
	return joinParts(name, func(n string) ([]string, []string, [][]Cell, bool) {
		t, ok := db[n]
		return t.Cols, sqliteTypes(t), t.Rows, ok
	})
}

func sqliteTypes(t Table) []string {
	r := make([]string, len(t.Cols))
	copy(r, t.Types)

	return r
}

func cmpSQLite(c *Case, o *Obs, e *exp, opt cmpOpt) string {
	if o.DBErr != "" {
		return o.DBErr
	}

	opt.sql = true
	opt.fold = opt.fold || !c.Opts.CaseSensitive

	maxCols := c.Opts.SQLMaxCols
	if maxCols == 0 {
		maxCols = 500
	}

	known := map[string]bool{}

	check := func(n string, et *etable, transposed bool) string {
		t, used, msg := dbTab(o.DB, n)
		if msg != "" {
			return msg
		}

		for _, u := range used {
			known[u] = true

			if len(o.DB[u].Cols) > maxCols {
				return fmt.Sprintf("table %q has %d columns", u, len(o.DB[u].Cols))
			}
		}

		seqs := et.seqs
		if transposed {
			seqs = nil
		}

		full := t

		t, msg = dropSeq(t, seqs)
		if msg != "" {
			return msg
		}

		if transposed {
			for i, r := range full.rows {
				if r[0].V != r[1].V {
					return fmt.Sprintf("%q row %d: _seq_id %s, sequence %s", n, i+1, r[0].V, r[1].V)
				}
			}

			if msg := cmpTransposed(et, t, opt); msg != "" {
				return msg
			}
		} else if msg := cmpMain(et, t, opt); msg != "" {
			return msg
		}

		if opt.noTypes {
			return ""
		}

		return sqliteDecl(et, t, transposed, opt)
	}

	if msg := check(c.table(), e.main, false); msg != "" {
		return msg
	}

	for _, dst := range sortedKeys(e.tr) {
		if msg := check(c.table()+"_"+dst, e.tr[dst], true); msg != "" {
			return msg
		}
	}

	for _, n := range sortedKeys(o.DB) {
		if !known[n] {
			return fmt.Sprintf("unexpected table %q", n)
		}
	}

	return ""
}

// sqliteDecl: numeric affinity only where every value is a number or a boolean.
func sqliteDecl(et *etable, t tab, transposed bool, opt cmpOpt) string {
	off := 0

	if transposed {
		off = 2
		opt.anyOrder = true
	}

	idx, msg := colIndex(colNames(et), t.cols[off:], opt)
	if msg != "" {
		return msg
	}

	for i, col := range et.cols {
		if col.loose {
			continue
		}

		got := strings.ToUpper(t.types[off+idx[i]])
		want := ""

		switch col.typ() {
		case "int", "bool":
			want = "INTEGER"
		case "float":
			want = "REAL"
		}

		if got != want {
			return fmt.Sprintf("column %q is declared %q, its values are of type %s", col.name, got, col.typ())
		}
	}

	return ""
}
