package main

import (
	"strconv"
	"strings"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Enumeration helpers: everything below is exhaustive over its alphabet.

// seqs calls f with every sequence of n elements.
func seqs[T any](al []T, n int, f func([]T)) {
	cur := make([]T, n)

	var rec func(i int)

	rec = func(i int) {
		if i == n {
			f(append([]T(nil), cur...))
			return
		}

		for _, a := range al {
			cur[i] = a
			rec(i + 1)
		}
	}

	rec(0)
}

// upTo calls f with every sequence of 1 to n elements.
func upTo[T any](al []T, n int, f func([]T)) {
	for i := 1; i <= n; i++ {
		seqs(al, i, f)
	}
}

// subsets calls f with every subset.
func subsets[T any](al []T, f func([]T)) {
	for m := 0; m < 1<<len(al); m++ {
		var s []T

		for i := range al {
			if m&(1<<i) != 0 {
				s = append(s, al[i])
			}
		}

		f(s)
	}
}

func perms[T any](al []T, f func([]T)) {
	if len(al) == 0 {
		f(nil)
		return
	}

	for i := range al {
		rest := append(append([]T(nil), al[:i]...), al[i+1:]...)
		perms(rest, func(p []T) { f(append([]T{al[i]}, p...)) })
	}
}

func lines(ls ...string) string {
	if len(ls) == 0 {
		return ""
	}

	return strings.Join(ls, "\n") + "\n"
}

// obj renders an object of the pairs.
func obj(kv ...string) string {
	s := "{"

	for i := 0; i+1 < len(kv); i += 2 {
		if i > 0 {
			s += ","
		}

		s += string(quoteJSON(kv[i])) + ":" + kv[i+1]
	}

	return s + "}"
}

// objects calls f with the text of every object with up to n members over keys and values.
func objects(keys, vals []string, n int, f func(string)) {
	var rec func(cur []string, left int)

	rec = func(cur []string, left int) {
		f(obj(cur...))

		if left == 0 {
			return
		}

		for _, k := range keys {
			used := false

			for i := 0; i < len(cur); i += 2 {
				used = used || cur[i] == k
			}

			if used {
				continue
			}

			for _, v := range vals {
				rec(append(append([]string(nil), cur...), k, v), left-1)
			}
		}
	}

	rec(nil, n)
}

// values lists the JSON texts of depth up to d over the scalars and keys, with up to w members.
func values(scalars, keys []string, d, w int) []string {
	if d == 0 {
		return scalars
	}

	sub := values(scalars, keys, d-1, w)
	res := append([]string(nil), scalars...)

	objects(keys, sub, w, func(o string) { res = append(res, o) })

	res = append(res, "[]")

	upTo(sub, w, func(s []string) { res = append(res, "["+strings.Join(s, ",")+"]") })

	return res
}

func (c *Case) clone() *Case {
	n := *c
	n.Files = append([]File(nil), c.Files...)
	n.Extra = append([]File(nil), c.Extra...)

	if c.Aux != nil {
		n.Aux = map[string]string{}
		for k, v := range c.Aux {
			n.Aux[k] = v
		}
	}

	return &n
}

// csv makes a case with a CSV output.
func csvCase(data string) *Case {
	c := in(data)
	c.Opts.CSV = "/out/o.csv"

	return c
}

// allOut enables every output.
func (c *Case) allOut() *Case {
	c.Opts.CSV = "/out/o.csv"
	c.Opts.Raw = "/out/o.raw"
	c.Opts.RawDelim = "|"
	c.Opts.SQLite = "/out/o.sqlite"
	c.Opts.PG = "/out/o.sql"

	return c
}

// std compares a run with the expectation.
func std(opt cmpOpt) func(x *Ctx, o *Obs) string {
	return func(x *Ctx, o *Obs) string { return stdCheck(x, o, opt) }
}

func stdCheck(x *Ctx, o *Obs, opt cmpOpt) string {
	if !o.ok() {
		return "the run ended with " + o.status() + logTail(o)
	}

	return cmpAll(x.c, o, x.exp(), opt)
}

func logTail(o *Obs) string {
	if n := len(o.Logs); n > 0 {
		return ": " + o.Logs[n-1]
	}

	return ""
}

// tricky scalars.
var (
	scalarsFew  = []string{`"x"`, `1`, `true`, `null`}
	scalarsMany = []string{
		`""`, `"x"`, `"a,b"`, `"q\"q"`, `"l1\nl2"`, `" s "`, `"é€😀"`, `"\u0041\u00e9\ud83d\ude00"`, `"\\N"`, `"\\."`, `"\t\b\f\r\/"`,
		`"null"`, `"NULL"`, `"1"`, `"{"`, `"[1"`, `"{}"`, `"http://h/p"`, `"#c"`, `"'q'"`, `"=1+1"`, `"-"`, `"ABSENT"`,
		`0`, `-0`, `1`, `-1`, `10`, `1.5`, `-0.25`, `1.0`, `1e3`, `1E+3`, `1e-3`, `12345678901234567890`, `9007199254740993`,
		`9223372036854775807`, `-9223372036854775808`, `0.1`, `123456.789`, `1e21`, `100000`, `999999`, `1234567`, `3.141592653589793238`,
		`true`, `false`, `null`,
	}
)

func rep(s string, n int) string { return strings.Repeat(s, n) }

func num(i int) string { return strconv.Itoa(i) }

var _ = rt.OutDone

// checkAll is the check of a property, and that no line makes a worker panic.
func checkAll(p *Prop, x *Ctx, o *Obs) string {
	if msg := p.Check(x, o); msg != "" {
		return msg
	}

	for _, m := range o.Said {
		if strings.Contains(m, "panic") || strings.Contains(m, "BUG") {
			return "the run says " + strconv.Quote(clip(m))
		}
	}

	return ""
}
