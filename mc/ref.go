package main

import (
	"bytes"
	"encoding/json"
	"math"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// The reference model: what a run of the tool has to produce, computed line by line with plain
// data structures, from the documentation and the properties.

// leaf is a value met on a line.
type leaf struct {
	path   []string
	key    string
	parent string
	kind   byte // s n b z: scalars; j: JSON literal; o a: containers
	s      string
	b      bool
}

// ecell is an expected cell.
type ecell struct {
	kind byte // 0 absent, s n b z; j: JSON text; t: a report naming the texts (between zeroes) in order; '*': unspecified
	s    string
}

func (c ecell) text() string { return c.s }

func (c ecell) empty() bool { return c.kind == 0 || c.kind == 'z' }

// ecol is an expected column.
type ecol struct {
	name  string
	key   string
	kinds map[string]bool // int float bool string time (a string, edge: at the limits) json null, of the values scanned
	known bool            // discovered by scanning
	multi bool            // several keys or a constant
	loose bool            // some values of the kinds may be below a parent that is kept as JSON
}

// pgTypes are the types a column may have in a PostgreSQL dump.
func (c ecol) pgTypes() []string {
	k := c.kinds

	if !k["time"] && !k["edge"] || k["string"] || k["json"] || k["bool"] || k["int"] || k["float"] {
		return []string{c.typ()}
	}

	if k["edge"] {
		return []string{"time", "string"}
	}

	return []string{"time"}
}

func (c ecol) typ() string {
	k := c.kinds

	switch {
	case k["string"] || k["json"] || k["time"] || k["edge"]:
		return "string"
	case k["bool"] && (k["int"] || k["float"]):
		return "string"
	case k["bool"]:
		return "bool"
	case k["float"]:
		return "float"
	case k["int"]:
		return "int"
	}

	return "null"
}

// etable is an expected table.
type etable struct {
	cols    []ecol
	rows    [][]ecell
	seqs    []int
	idx     []string // row key of a transposed table
	idxKind map[string]bool
}

// exp is everything expected.
type exp struct {
	main  *etable
	tr    map[string]*etable
	flat  []string // discovered columns before selection, in order
	info  []einfo  // selected columns, in order
	left  []string // discovered columns that are not selected
	lines int
	model *model
}

// einfo is an expected entry of the information list.
type einfo struct {
	col ecol
	dst string
}

type fkey struct {
	key, canon, parent string
	path               []string
	kinds              map[string]bool
	scalar             bool // some non-null scalar or JSON literal
	null               bool
	container          bool
	array, literal     bool // some value is an array; some value is kept as JSON
	nonzero            bool
	order              int
}

type refLine struct {
	seq  int
	text string
}

type model struct {
	c    *Case
	keep map[string]bool
	ext  []extRule
	urls []string // texts that are being decoded as URL

	excl, incl []*regexp.Regexp
	repl       []replRule
	transp     []string

	keys  map[string]*fkey // by exact key
	order []string         // canonical keys in order of discovery
	byCan map[string][]*fkey
	hc    map[string]bool

	reps   map[string]string
	repBy  map[string]string
	limIdx map[string]int
}

type extRule struct {
	re     *regexp.Regexp
	format string
}

type replRule struct {
	re  *regexp.Regexp
	rep string
}

// refRegex translates the simplified syntax.
func refRegex(s string) *regexp.Regexp {
	if strings.HasPrefix(s, ".") && !strings.HasSuffix(s, "$") {
		// Other operators of expressions keep their meaning.
		b := ""

		for _, r := range s {
			switch {
			case r == '*':
				b += "([^.]+)"
			case strings.ContainsRune(".[]{}", r):
				b += "\\" + string(r)
			default:
				b += string(r)
			}
		}

		s = "^" + b + "$"
	}

	return regexp.MustCompile(s)
}

func (m *model) ck(k string) string {
	if m.c.Opts.CaseSensitive {
		return k
	}

	return strings.ToLower(k)
}

func flatKey(path []string) string {
	if len(path) == 0 {
		return ""
	}

	return "." + strings.Join(path, ".")
}

// refLines lists the lines of a window. Every input has its own.
func refLines(c *Case, offset, limit int) []refLine {
	var r []refLine

	seq := 0

	for _, f := range c.Files {
		data := f.Data
		if pl, ok := c.Aux["plain:"+f.Name]; ok {
			data = pl
		}

		n := 0

		for data != "" {
			var line string

			if i := strings.IndexByte(data, '\n'); i >= 0 {
				line, data = data[:i], data[i+1:]
			} else {
				line, data = data, ""
			}

			line = strings.TrimSuffix(line, "\r")
			n++

			if n <= offset {
				continue
			}

			if limit > 0 && n > offset+limit {
				break
			}

			seq++
			r = append(r, refLine{seq, line})
		}
	}

	return r
}

// events lists the values of a line. bad: the line has no valid JSON.
func (m *model) events(l refLine) (ev []leaf, bad bool) {
	emit := func(e leaf) { ev = append(ev, e) }

	if m.c.Opts.AddSequence {
		emit(leaf{path: []string{"_sequence"}, key: "._sequence", kind: 'n', s: itoa(l.seq)})
	}

	text := l.text
	prefix := m.c.Opts.MatchLinePrefix

	if prefix == "" {
		prefix = m.c.Cfg.MatchLinePrefix
	}

	if !strings.HasPrefix(text, "{") || len(text) < 2 {
		pos := strings.IndexByte(text, '{')
		pref := text

		if pos > 0 {
			pref = text[:pos]
		}

		if prefix != "" {
			for _, sm := range regexp.MustCompile(prefix).FindAllStringSubmatch(pref, -1) {
				for j := 1; j < len(sm); j++ {
					seg := "[" + itoa(j-1) + "]"
					m.str([]string{"_prefix", seg}, "", sm[j], emit)
				}
			}
		}

		if pos < 0 {
			return ev, prefix == ""
		}

		text = text[pos:]
	}

	v, ok := parseJSON(text)
	if !ok {
		return ev, true
	}

	m.walk(nil, "", v, emit)

	return ev, false
}

func (m *model) walk(path []string, parent string, v *jv, emit func(leaf)) {
	key := flatKey(path)

	switch v.kind {
	case 'o', 'a':
		if key != "" {
			emit(leaf{path: path, key: key, parent: parent, kind: v.kind})

			if m.keep[key] {
				emit(leaf{path: path, key: key, parent: parent, kind: 'j', s: marshal(v)})
				return
			}
		}

		for i, e := range v.vals {
			seg := "[" + itoa(i) + "]"
			if v.kind == 'o' {
				seg = v.keys[i]
			}

			m.walk(append(append([]string(nil), path...), seg), key, e, emit)
		}
	case 's':
		m.str(path, parent, v.s, emit)
	default:
		emit(leaf{path: path, key: key, parent: parent, kind: v.kind, s: v.s, b: v.b})
	}
}

func marshal(v *jv) string {
	var sb strings.Builder

	var w func(v *jv)

	w = func(v *jv) {
		switch v.kind {
		case 'o':
			sb.WriteByte('{')

			for i, k := range v.keys {
				if i > 0 {
					sb.WriteByte(',')
				}

				sb.Write(quoteJSON(k))
				sb.WriteByte(':')
				w(v.vals[i])
			}

			sb.WriteByte('}')
		case 'a':
			sb.WriteByte('[')

			for i, e := range v.vals {
				if i > 0 {
					sb.WriteByte(',')
				}

				w(e)
			}

			sb.WriteByte(']')
		case 's':
			sb.Write(quoteJSON(v.s))
		case 'n':
			sb.WriteString(v.s)
		case 'b':
			sb.WriteString(strconv.FormatBool(v.b))
		default:
			sb.WriteString("null")
		}
	}

	w(v)

	return sb.String()
}

func quoteJSON(s string) []byte {
	var b bytes.Buffer

	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)

	return bytes.TrimRight(b.Bytes(), "\n")
}

func (m *model) str(path []string, parent, s string, emit func(leaf)) {
	key := flatKey(path)

	emit(leaf{path: path, key: key, parent: parent, kind: 's', s: s})

	sub := func(name string) []string { return append(append([]string(nil), path...), name) }

	// Prefix captures are not inspected.
	if path[0] == "_prefix" && parent == "" {
		return
	}

	for _, x := range m.ext {
		if !x.re.MatchString(key) {
			continue
		}

		switch x.format {
		case "JSON":
			if v, ok := parseJSON(s); ok {
				m.walk(sub("JSON"), key, v, emit)
				return
			}
		case "URL":
			// A part of a URL may be the same text, there is nothing more in it.
			if n := len(m.urls); n > 0 && m.urls[n-1] == s {
				break
			}

			if v := urlValue(s); v != nil {
				m.urls = append(m.urls, s)
				defer func() { m.urls = m.urls[:len(m.urls)-1] }()

				m.walk(sub("URL"), key, v, emit)
				return
			}
		}

		break
	}

	if !m.c.Opts.ExtractStrings || len(s) <= 2 {
		return
	}

	if s[0] == '{' || s[0] == '[' {
		if v, ok := parseJSON(s); ok {
			m.walk(sub("JSON"), key, v, emit)
			return
		}
	}

	if strings.Contains(s, "://") {
		if v := urlValue(s); v != nil {
			m.walk(sub("URL"), key, v, emit)
		}
	}
}

// urlValue is the decomposition of a URL.
func urlValue(s string) *jv {
	u, err := url.Parse(s)
	if err != nil {
		return nil
	}

	v := &jv{kind: 'o'}
	str := func(s string) *jv { return &jv{kind: 's', s: s} }
	add := func(k, s string) {
		if s != "" {
			v.keys = append(v.keys, k)
			v.vals = append(v.vals, str(s))
		}
	}

	pass, _ := u.User.Password()

	add("scheme", u.Scheme)
	add("user", u.User.Username())
	add("pass", pass)
	add("host", u.Hostname())
	add("port", u.Port())

	if q := u.Query(); len(q) > 0 {
		qv := &jv{kind: 'o'}

		for _, k := range sortedKeys(q) {
			a := &jv{kind: 'a'}
			for _, e := range q[k] {
				a.vals = append(a.vals, str(e))
			}

			qv.keys = append(qv.keys, k)
			qv.vals = append(qv.vals, a)
		}

		v.keys = append(v.keys, "query")
		v.vals = append(v.vals, qv)
	}

	a := &jv{kind: 'a'}
	for _, e := range strings.Split(strings.Trim(u.Path, "/"), "/") {
		a.vals = append(a.vals, str(e))
	}

	v.keys = append(v.keys, "path")
	v.vals = append(v.vals, a)

	add("fragment", u.Fragment)

	return v
}

func numKind(raw string) string {
	f, err := strconv.ParseFloat(raw, 64)
	if err == nil && !strings.ContainsAny(raw, ".eE") && f >= -math.Pow(2, 63) && f < math.Pow(2, 63) {
		return "int"
	}

	if math.IsInf(f, 0) {
		return "string"
	}

	return "float"
}

// scan discovers keys.
func (m *model) scan(lines []refLine) {
	kids := map[string]map[string]bool{}

	for _, l := range lines {
		ev, _ := m.events(l)
		for _, e := range ev {
			k := m.keys[e.key]
			if k == nil {
				k = &fkey{key: e.key, canon: m.ck(e.key), parent: e.parent, path: e.path, kinds: map[string]bool{}, order: len(m.keys)}
				m.keys[e.key] = k

				if m.byCan[k.canon] == nil {
					m.order = append(m.order, k.canon)
				}

				m.byCan[k.canon] = append(m.byCan[k.canon], k)

				if e.parent != "" {
					if kids[e.parent] == nil {
						kids[e.parent] = map[string]bool{}
					}

					kids[e.parent][e.key] = true
				}
			}

			switch e.kind {
			case 'o', 'a':
				k.container = true
				k.array = k.array || e.kind == 'a'
				k.nonzero = true
			case 'z':
				k.null = true
				k.kinds["null"] = true
			case 's', 'j':
				k.kinds[stampKind(m.c, e.key, e.s)] = true
				k.literal = k.literal || e.kind == 'j'
				k.scalar = true
				k.nonzero = k.nonzero || e.s != ""
			case 'n':
				k.kinds[numKind(e.s)] = true
				k.scalar = true
				f, _ := strconv.ParseFloat(e.s, 64)
				k.nonzero = k.nonzero || f != 0
			case 'b':
				k.kinds["bool"] = true
				k.scalar = true
				k.nonzero = k.nonzero || e.b
			}
		}
	}

	limit := 100
	if m.c.Opts.ChildrenLimit != nil {
		limit = *m.c.Opts.ChildrenLimit
	}

	if limit <= 0 {
		return
	}

	for p, ch := range kids {
		if len(ch) <= limit {
			continue
		}

		allowed := false
		for _, a := range m.c.Cfg.AllowCardinality {
			allowed = allowed || a == p
		}

		if !allowed {
			m.hc[p] = true
		}
	}
}

// below tells whether a parent of the key is kept as JSON for its many children.
func (m *model) below(k *fkey) bool {
	for hc := range m.hc {
		if strings.HasPrefix(k.key, hc+".") {
			return true
		}
	}

	return false
}

func (m *model) loose(g *group) bool {
	for _, can := range g.members {
		for _, k := range m.byCan[can] {
			if m.below(k) {
				return true
			}
		}
	}

	return false
}

// isColumn tells whether a key makes a column.
func (m *model) isColumn(k *fkey) bool {
	if m.below(k) {
		return false
	}

	if m.hc[k.key] || k.scalar {
		return true
	}

	return !k.container
}

func (m *model) excluded(k string) bool {
	for _, e := range m.c.Cfg.ExcludeKeys {
		if m.ck(e) == m.ck(k) {
			return true
		}
	}

	for _, r := range m.excl {
		if r.MatchString(k) {
			return true
		}
	}

	return false
}

var (
	snakeFirst = regexp.MustCompile("(.)([A-Z][a-z]+)")
	snakeAll   = regexp.MustCompile("([a-z0-9])([A-Z])")
	snakeRest  = regexp.MustCompile(`[^a-z0-9A-Z\s()]+`)
	spaces     = regexp.MustCompile(`\s+`)
)

func snake(s string) string {
	s = snakeFirst.ReplaceAllString(s, "${1}_${2}")
	s = snakeAll.ReplaceAllString(s, "${1}_${2}")
	s = snakeRest.ReplaceAllString(s, "_")

	return strings.ToLower(strings.Trim(strings.ReplaceAll(s, "_ ", " "), "_"))
}

// name gives the column name of a key.
func (m *model) name(orig string) string {
	ck := m.ck(orig)

	if r, ok := m.reps[ck]; ok {
		return r
	}

	return m.longName(orig)
}

func (m *model) longName(orig string) string {
	for _, r := range m.repl {
		sm := r.re.FindStringSubmatch(orig)
		if sm == nil {
			continue
		}

		n := r.rep
		for i := 1; i < len(sm); i++ {
			n = strings.ReplaceAll(n, "${"+itoa(i)+"}", spaces.ReplaceAllString(strings.TrimSpace(sm[i]), "_"))
		}

		if n == orig {
			continue
		}

		if s, ok := strings.CutSuffix(n, "|to_snake_case"); ok {
			n = snake(s)
		}

		return n
	}

	if !m.c.Opts.ReplaceKeys {
		return orig
	}

	segs := strings.Split(strings.TrimRight(orig, "."), ".")
	tail := ""

	for i := len(segs) - 1; i > 0; i-- {
		s := strings.Trim(snake(segs[i]), "[]")
		if tail == "" && i == len(segs)-1 {
			tail = s
		} else {
			tail = s + "_" + tail
		}

		if tail == "" {
			return orig
		}

		owner, taken := m.repBy[tail]
		if (!taken || owner == orig) && (tail[0] == '_' || unicode.IsLetter(rune(tail[0]))) {
			m.repBy[tail] = orig
			return tail
		}
	}

	return orig
}

// transposed returns the table, the prefix, the element and the column of a transposed key.
func (m *model) transposed(k string) (dst, from, row, rest string, isInt, ok bool) {
	for _, p := range m.transp {
		if !strings.HasPrefix(k, p+".") {
			continue
		}

		rest = k[len(p)+1:]
		row = rest

		if i := strings.IndexByte(rest, '.'); i > 0 {
			row, rest = rest[:i], rest[i:]
		} else {
			rest = "._value"
		}

		if strings.HasPrefix(row, "[") && strings.HasSuffix(row, "]") {
			if _, err := strconv.Atoi(row[1 : len(row)-1]); err == nil {
				row = row[1 : len(row)-1]
				isInt = true
			}
		}

		return m.c.Cfg.Transpose[p], p, row, rest, isInt, true
	}

	return "", "", "", "", false, false
}

type group struct {
	name    string
	members []string // canonical keys
	konst   *string
	orig    string

	dst, from, row, rest string
	isInt                bool
}

// expect computes the expectation of a case.
func expect(c *Case) *exp {
	m := &model{
		c: c, keep: map[string]bool{}, keys: map[string]*fkey{}, byCan: map[string][]*fkey{}, hc: map[string]bool{},
		reps: map[string]string{}, repBy: map[string]string{},
	}

	for _, k := range c.Cfg.KeepJSON {
		m.keep[k] = true
	}

	for _, k := range sortedKeys(c.Cfg.ExtractValuesRegex) {
		m.ext = append(m.ext, extRule{refRegex(k), c.Cfg.ExtractValuesRegex[k]})
	}

	for _, k := range sortedKeys(c.Cfg.ReplaceKeysRegex) {
		m.repl = append(m.repl, replRule{refRegex(k), c.Cfg.ReplaceKeysRegex[k]})
	}

	for _, k := range c.Cfg.ExcludeKeysRegex {
		m.excl = append(m.excl, refRegex(k))
	}

	for _, k := range c.Cfg.IncludeKeysRegex {
		m.incl = append(m.incl, refRegex(k))
	}

	m.transp = sortedKeys(c.Cfg.Transpose)
	slices.Reverse(m.transp) // Longer of nested prefixes come first.

	include := append([]string(nil), c.Cfg.IncludeKeys...)
	if c.Opts.GetKey != "" {
		include = append(include, c.Opts.GetKey)
	}

	scanning := len(include) == 0 || len(m.incl) > 0
	e := &exp{tr: map[string]*etable{}, model: m}

	if scanning {
		lim := c.Opts.MaxLines
		if k := c.Opts.MaxLinesKeys; k > 0 && (lim == 0 || k < lim) {
			lim = k
		}

		m.scan(refLines(c, c.Opts.OffsetLines, lim))
	}

	// Discovered columns.
	type disc struct {
		orig string
		zero bool
	}

	found := map[string]disc{}

	var foundOrder []string

	for _, can := range m.order {
		d := disc{zero: true}
		n := 0

		for _, k := range m.byCan[can] {
			if !m.isColumn(k) {
				continue
			}

			if n == 0 {
				d.orig = k.key
			}

			n++
		}

		for _, k := range m.byCan[can] {
			if k.nonzero {
				d.zero = false
			}
		}

		if n == 0 {
			continue
		}

		found[can] = d
		foundOrder = append(foundOrder, can)
	}

	// A column takes the place of the variant it is named after.
	sort.SliceStable(foundOrder, func(i, j int) bool {
		return m.keys[found[foundOrder[i]].orig].order < m.keys[found[foundOrder[j]].orig].order
	})

	for _, can := range foundOrder {
		e.flat = append(e.flat, found[can].orig)
	}

	// Selection.
	var sel []string

	seen := map[string]bool{}
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			sel = append(sel, k)
		}
	}

	for _, k := range include {
		if !m.excluded(k) {
			add(k)
		}
	}

	for _, can := range foundOrder {
		d := found[can]
		if m.excluded(d.orig) {
			continue
		}

		switch {
		case len(m.incl) > 0:
			for _, r := range m.incl {
				if r.MatchString(d.orig) {
					add(d.orig)
					break
				}
			}
		case len(include) == 0:
			if !c.Opts.SkipZeroCols || !d.zero {
				add(d.orig)
			}
		}
	}

	// Names.
	for k, r := range c.Cfg.ReplaceKeys {
		m.reps[m.ck(k)] = r
		m.repBy[r] = m.ck(k)
	}

	short := append([]string(nil), sel...)
	sort.SliceStable(short, func(i, j int) bool { return len(short[i]) < len(short[j]) })

	names := map[string]string{}
	origOf := func(k string) string {
		if d, ok := found[m.ck(k)]; ok {
			return d.orig
		}

		return k
	}

	for _, k := range short {
		o := origOf(k)
		if _, _, _, rest, _, ok := m.transposed(o); ok && scanning && found[m.ck(k)].orig != "" {
			o = rest
		}

		names[k] = m.name(o)
	}

	// Groups.
	var groups []*group

	byName := map[string]*group{}
	elems := map[[3]string]string{} // names of elements as first seen

	for _, k := range sel {
		g := &group{name: names[k], orig: origOf(k)}

		if scanning {
			if dst, from, row, rest, isInt, ok := m.transposed(origOf(k)); ok && found[m.ck(k)].orig != "" {
				if id := [3]string{dst, from, m.ck(row)}; !isInt {
					if elems[id] == "" {
						elems[id] = row
					}

					row = elems[id]
				}

				g.dst, g.from, g.row, g.rest, g.isInt = dst, from, row, rest, isInt
				g.members = []string{m.ck(k)}
				groups = append(groups, g)

				continue
			}
		}

		if o := byName[g.name]; o != nil {
			g = o
		} else {
			byName[g.name] = g
			groups = append(groups, g)
		}

		if v, ok := strings.CutPrefix(k, "const:"); ok {
			g.konst = &v
		} else {
			g.members = append(g.members, m.ck(k))
		}
	}

	// Kinds.
	kinds := func(g *group) (map[string]bool, bool) {
		r := map[string]bool{}
		known := false

		for _, can := range g.members {
			spellings := 0

			for _, k := range m.byCan[can] {
				if m.hc[k.key] {
					r["json"] = true
				}

				if m.hc[k.key] || len(k.kinds) > 0 {
					spellings++
				}

				if spellings > 1 && c.Cfg.ConcatDelimiter != nil {
					r["string"] = true // Values may be joined.
				}

				for t := range k.kinds {
					r[t] = true
				}

				known = true
			}
		}

		if g.konst != nil || c.Cfg.ConcatDelimiter != nil && len(g.members) > 1 || !scanning {
			r["string"] = true
		}

		return r, known
	}

	chosen := map[string]bool{}
	for _, k := range sel {
		chosen[m.ck(k)] = true
	}

	for _, can := range foundOrder {
		if !chosen[can] {
			e.left = append(e.left, found[can].orig)
		}
	}

	e.main = &etable{}
	colOf := map[string]int{} // canonical -> main column

	for _, g := range groups {
		kk, known := kinds(g)

		if g.dst == "" {
			col := ecol{name: g.name, key: g.orig, kinds: kk, known: known, loose: m.loose(g), multi: len(g.members) > 1 || g.konst != nil}

			for _, can := range g.members {
				colOf[can] = len(e.main.cols)
			}

			e.main.cols = append(e.main.cols, col)
			e.info = append(e.info, einfo{col: col})

			continue
		}

		e.info = append(e.info, einfo{col: ecol{name: g.name, key: g.orig, kinds: kk, known: known}, dst: g.dst})

		t := e.tr[g.dst]
		if t == nil {
			t = &etable{idxKind: map[string]bool{}}
			e.tr[g.dst] = t
		}

		if g.isInt {
			t.idxKind["int"] = true
		} else {
			t.idxKind["string"] = true
		}

		j := -1

		for i, col := range t.cols {
			if m.ck(col.key) == m.ck(g.rest) {
				j = i
			}
		}

		if j < 0 {
			j = len(t.cols)
			t.cols = append(t.cols, ecol{name: g.name, key: g.rest, kinds: map[string]bool{}, known: true})
		}

		t.cols[j].loose = t.cols[j].loose || m.loose(g)

		for k := range kk {
			t.cols[j].kinds[k] = true
		}
	}

	// Rows.
	for k := range m.hc {
		m.keep[k] = true
	}

	lines := refLines(c, c.Opts.OffsetLines, c.Opts.MaxLines)
	e.lines = len(lines)

	for _, l := range lines {
		ev, bad := m.events(l)
		vals := map[string]ecell{} // by canonical key, transposed ones
		row := make([]ecell, len(e.main.cols))

		for _, lf := range ev {
			if lf.kind == 'o' || lf.kind == 'a' {
				continue
			}

			can := m.ck(lf.key)

			if scanning {
				if m.keys[lf.key] == nil {
					continue
				}
			} else if !seen[lf.key] {
				continue
			}

			v := ecell{kind: lf.kind, s: lf.s}

			switch lf.kind {
			case 'b':
				v.s = strconv.FormatBool(lf.b)
			case 'z':
				v.s = ""
			case 's', 'j':
				if n := c.Opts.FieldLimit; n > 0 && len(v.s) > n {
					v.s = v.s[:n]
				}

				if f, ok := c.Cfg.ParseTime[lf.key]; ok && f != "RAW" {
					if ts, ok := refTime(c, f, v.s); ok {
						v.s = ts
					} else {
						v.kind = 't'
					}
				}
			}

			put := func(old ecell) ecell {
				if old.kind == 0 {
					return v
				}

				if d := c.Cfg.ConcatDelimiter; d != nil {
					text := func(e ecell) string {
						if e.kind == 'z' {
							return "NULL" // Among other values.
						}

						return e.s
					}

					switch {
					case old.kind == 't' && v.kind == 't':
						return ecell{kind: 't', s: old.s + "\x00" + *d + "\x00" + v.s}
					case old.kind == 't':
						return ecell{kind: 't', s: old.s + "\x00" + *d + text(v)}
					case v.kind == 't':
						return ecell{kind: 't', s: text(old) + *d + "\x00" + v.s}
					}

					return ecell{kind: 's', s: text(old) + *d + text(v)}
				}

				if old.kind == 'z' {
					return v
				}

				return old
			}

			if i, ok := colOf[can]; ok {
				row[i] = put(row[i])
			} else {
				vals[can] = put(vals[can])
			}
		}

		if bad && c.Aux["lenient"] != "" {
			for i := range row {
				row[i] = ecell{kind: '*'}
			}
		}

		for i, g := range mainGroups(groups) {
			if g.konst != nil {
				row[i] = ecell{kind: 's', s: *g.konst}
			}
		}

		e.main.rows = append(e.main.rows, row)
		e.main.seqs = append(e.main.seqs, l.seq)

		trRows := map[string]map[[2]string][]ecell{}

		for _, g := range groups {
			if g.dst == "" {
				continue
			}

			v, ok := vals[g.members[0]]
			if !ok {
				continue
			}

			t := e.tr[g.dst]

			if trRows[g.dst] == nil {
				trRows[g.dst] = map[[2]string][]ecell{}
			}

			id := [2]string{g.row, g.from}
			r := trRows[g.dst][id]
			if r == nil {
				r = make([]ecell, len(t.cols))
				trRows[g.dst][id] = r
			}

			for i, col := range t.cols {
				if m.ck(col.key) == m.ck(g.rest) {
					r[i] = v
				}
			}
		}

		for _, dst := range sortedKeys(trRows) {
			t := e.tr[dst]

			for id, r := range trRows[dst] { // Rows of a line are compared as a set.
				t.rows = append(t.rows, r)
				t.seqs = append(t.seqs, l.seq)
				t.idx = append(t.idx, id[0])
			}
		}
	}

	return e
}

func mainGroups(gs []*group) []*group {
	var r []*group

	for _, g := range gs {
		if g.dst == "" {
			r = append(r, g)
		}
	}

	return r
}

func refTime(c *Case, layout, s string) (string, bool) {
	loc := time.UTC

	out := c.Cfg.OutputTimeFormat
	if out == "" {
		out = time.RFC3339
	}

	tz := c.Cfg.OutputTimezone
	if tz != "" {
		l, err := time.LoadLocation(tz)
		if err != nil {
			tz = ""
		} else {
			loc = l
		}
	}

	t, err := time.ParseInLocation(layout, s, loc)
	if err != nil {
		return "", false
	}

	if tz != "" {
		t = t.In(loc)
	}

	return t.Format(out), true
}
