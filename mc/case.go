package main

import (
	"encoding/json"
	"sort"
	"strconv"
	"unicode/utf8"

	"github.com/vearutop/flatjsonl/zzverif/vos"
)

// Cfg mirrors the configuration file.
type Cfg struct {
	MatchLinePrefix    string            `json:"matchLinePrefix,omitempty"`
	IncludeKeys        []string          `json:"includeKeys,omitempty"`
	IncludeKeysRegex   []string          `json:"includeKeysRegex,omitempty"`
	ExcludeKeys        []string          `json:"excludeKeys,omitempty"`
	ExcludeKeysRegex   []string          `json:"excludeKeysRegex,omitempty"`
	ReplaceKeys        map[string]string `json:"replaceKeys,omitempty"`
	ReplaceKeysRegex   map[string]string `json:"replaceKeysRegex,omitempty"`
	ParseTime          map[string]string `json:"parseTime,omitempty"`
	OutputTimeFormat   string            `json:"outputTimeFormat,omitempty"`
	OutputTimezone     string            `json:"outputTZ,omitempty"`
	ConcatDelimiter    *string           `json:"concatDelimiter,omitempty"`
	Transpose          map[string]string `json:"transpose,omitempty"`
	ExtractValuesRegex map[string]string `json:"extractValuesRegex,omitempty"`
	KeepJSON           []string          `json:"keepJSON,omitempty"`
	AllowCardinality   []string          `json:"allowCardinality,omitempty"`
}

// Opts are the command-line options of a run.
type Opts struct {
	CSV, SQLite, PG, Raw string `json:",omitempty"`
	Output               string `json:",omitempty"`
	RawDelim             string `json:",omitempty"`
	SQLMaxCols           int    `json:",omitempty"`
	SQLTable             string `json:",omitempty"`
	MaxLines             int    `json:",omitempty"`
	OffsetLines          int    `json:",omitempty"`
	MaxLinesKeys         int    `json:",omitempty"`
	FieldLimit           int    `json:",omitempty"`
	ChildrenLimit        *int   `json:",omitempty"`
	KeyLimit             int    `json:",omitempty"`
	BufSize              int    `json:",omitempty"`
	GetKey               string `json:",omitempty"`
	ReplaceKeys          bool   `json:",omitempty"`
	ExtractStrings       bool   `json:",omitempty"`
	SkipZeroCols         bool   `json:",omitempty"`
	AddSequence          bool   `json:",omitempty"`
	MatchLinePrefix      string `json:",omitempty"`
	CaseSensitive        bool   `json:",omitempty"`
	ShowFlat             bool   `json:",omitempty"`
	ShowHier             bool   `json:",omitempty"`
	ShowInfo             bool   `json:",omitempty"`
	ShowSchema           bool   `json:",omitempty"`
	Concurrency          int    `json:",omitempty"`
	MemLimit             int    `json:",omitempty"`
	LoopSize             int    `json:",omitempty"`
	Verbosity            int    `json:",omitempty"`
	ConfigFile           string `json:",omitempty"` // pass the configuration as this file instead of inline
	Positional           int    `json:",omitempty"` // so many inputs as arguments, the others by -input
	NoInput              bool   `json:",omitempty"` // no inputs at all
	Bare                 bool   `json:",omitempty"` // leave out what is not set instead of giving what suits the harness

	Args []string `json:",omitempty"` // further arguments
}

// File is an input file.
type File struct {
	Name string
	Data string
}

type fileJSON struct {
	Name string
	Data string `json:",omitempty"`
	B64  []byte `json:",omitempty"` // data that is not UTF-8
}

// MarshalJSON keeps any bytes.
func (f File) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(f.Data) {
		return json.Marshal(fileJSON{Name: f.Name, Data: f.Data})
	}

	return json.Marshal(fileJSON{Name: f.Name, B64: []byte(f.Data)})
}

// UnmarshalJSON reverses MarshalJSON.
func (f *File) UnmarshalJSON(b []byte) error {
	var j fileJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}

	f.Name, f.Data = j.Name, j.Data+string(j.B64)

	return nil
}

// Case is one configuration of the system plus what the environment does.
type Case struct {
	Entry  string `json:",omitempty"` // "" flatjsonl, "csvequals", "lib"
	Files  []File // inputs, in order
	Extra  []File `json:",omitempty"` // other files present (configuration)
	Links  []File `json:",omitempty"` // other names of files, Data is the first name
	Opts   Opts
	Cfg    Cfg
	Map    int         `json:",omitempty"` // map order
	Faults []vos.Fault `json:",omitempty"`
	SQLOp  string      `json:",omitempty"`
	SQLAt  int         `json:",omitempty"`
	Chunk  []int       `json:",omitempty"` // read sizes, cyclic
	Heap   string      `json:",omitempty"` // answers to memory readings: y/n, last one repeats
	LogOps bool        `json:",omitempty"`
	Lib    *Lib        `json:",omitempty"` // use through the Go API
	RawDB  bool        `json:",omitempty"` // observe the bytes of the database file

	KeepDB   bool   `json:",omitempty"` // observe all files, start with a database
	DBBefore []byte `json:",omitempty"`

	// Exploration.
	Mode    string `json:",omitempty"` // "" default schedule, dpor, pb, db
	Bound   int    `json:",omitempty"`
	Window  int    `json:",omitempty"`
	Fine    bool   `json:",omitempty"`
	Stmts   bool   `json:",omitempty"` // statements are scheduling points
	Early   bool   `json:",omitempty"` // sleepers may wake while others run
	Max     int    `json:",omitempty"`
	MaxStep int    `json:",omitempty"`
	Free    bool   `json:",omitempty"` // not scheduled: for inputs of many lines

	Tag string            `json:",omitempty"` // what the family checks
	Aux map[string]string `json:",omitempty"`
}

func (c *Case) set(k, v string) *Case {
	if c.Aux == nil {
		c.Aux = map[string]string{}
	}

	c.Aux[k] = v

	return c
}

func (c *Case) cfgEmpty() bool {
	b, _ := json.Marshal(c.Cfg)
	return string(b) == "{}"
}

func itoa(i int) string { return strconv.Itoa(i) }

// args renders the command line.
func (c *Case) args() []string {
	if c.Entry == "csvequals" {
		a := []string{}
		for _, f := range c.Files {
			a = append(a, f.Name)
		}

		return a
	}

	o := c.Opts

	var a []string

	if !o.Bare {
		a = append(a, "-verbosity", itoa(o.Verbosity), "-progress-interval", "1h", "-mem-limit", itoa(o.MemLimit))

		a = append(a, "-concurrency", itoa(max(o.Concurrency, 1)))

		bs := o.BufSize
		if bs == 0 {
			bs = 65536
		}

		a = append(a, "-buf-size", itoa(bs))
	}

	a = append(a, o.Args...)

	str := func(n, v string) {
		if v != "" {
			a = append(a, "-"+n, v)
		}
	}
	num := func(n string, v int) {
		if v != 0 {
			a = append(a, "-"+n, itoa(v))
		}
	}
	flg := func(n string, v bool) {
		if v {
			a = append(a, "-"+n)
		}
	}

	str("csv", o.CSV)
	str("sqlite", o.SQLite)
	str("pg-dump", o.PG)
	str("raw", o.Raw)
	str("output", o.Output)
	str("raw-delim", o.RawDelim)
	num("sql-max-cols", o.SQLMaxCols)
	str("sql-table", o.SQLTable)
	num("max-lines", o.MaxLines)
	num("offset-lines", o.OffsetLines)
	num("max-lines-keys", o.MaxLinesKeys)
	num("field-limit", o.FieldLimit)

	if o.ChildrenLimit != nil {
		a = append(a, "-children-limit", itoa(*o.ChildrenLimit))
	}

	num("key-limit", o.KeyLimit)
	str("get-key", o.GetKey)
	flg("replace-keys", o.ReplaceKeys)
	flg("extract-strings", o.ExtractStrings)
	flg("skip-zero-cols", o.SkipZeroCols)
	flg("add-sequence", o.AddSequence)
	str("match-line-prefix", o.MatchLinePrefix)
	flg("case-sensitive-keys", o.CaseSensitive)
	flg("show-keys-flat", o.ShowFlat)
	flg("show-keys-hier", o.ShowHier)
	flg("show-keys-info", o.ShowInfo)
	flg("show-json-schema", o.ShowSchema)
	num("dbg-loop-input-size", o.LoopSize)

	switch {
	case o.ConfigFile != "":
		a = append(a, "-config", o.ConfigFile)
	case !c.cfgEmpty():
		b, _ := json.Marshal(c.Cfg)
		a = append(a, "-config", string(b))
	}

	pos := min(o.Positional, len(c.Files))

	in := ""

	for i, f := range c.Files[pos:] {
		if i > 0 {
			in += ","
		}

		in += f.Name
	}

	if in != "" && !o.NoInput {
		a = append(a, "-input", in)
	}

	for _, f := range c.Files[:pos] {
		a = append(a, f.Name)
	}

	return a
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}

	sort.Strings(r)

	return r
}

func ptr[T any](v T) *T { return &v }

// in makes a single-file case.
func in(data string) *Case {
	return &Case{Files: []File{{"/in/a.log", data}}}
}
