package main

import "strings"

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule:  "a case is one complete run of the program on one distinct input file; it is non-trivial: the header and every cell are compared with a reference flattening",
		Note:  "inputs limited to the enumerated alphabets and lengths; one worker, so that the order of discovery is that of the input",
		Cases: casesFidelity, Check: std(cmpOpt{}),
	})
}

func casesFidelity(g *Gen) {
	one := func(ls ...string) { g.add(func() *Case { return csvCase(lines(ls...)) }) }

	uniformRows(g, func(ls ...string) *Case { return csvCase(lines(ls...)) })

	// Every scalar, alone and in every position of a nest.
	for _, v := range scalarsMany {
		one(obj("a", v))
		one(obj("a", v), obj("a", `"z"`))
		one(obj("a", `"z"`), obj("a", v))
		one(obj("a", "["+v+"]"))
		one(obj("a", obj("b", v), "c", v))
		one(obj("a", "[1,"+v+","+obj("b", v)+"]"))
		one(obj("b", `{"c":[`+v+`]}`, "a", v))
	}

	// Every pair of scalars under one key, and side by side.
	for _, v := range scalarsMany {
		for _, w := range scalarsMany {
			one(obj("a", v), obj("a", w))
			one(obj("a", v, "b", w))
		}
	}

	// Strings.
	chars := []string{`a`, `\"`, `,`, `\n`, `\r`, `\\`, ` `, `é`, `\u0000`, `{`, `:`}

	n := 3
	if g.thorough {
		n = 4
	}

	upTo(chars, n, func(s []string) { one(`{"a":"` + strings.Join(s, "") + `","b":"z"}`) })

	// Keys.
	kchars := []string{`a`, `A`, `.`, `[`, `]`, `0`, ` `, `\"`, `,`, `\n`, `é`, `_`}

	upTo(kchars, 2, func(s []string) {
		k := strings.Join(s, "")
		one(`{"` + k + `":1,"b":2}`)
		one(`{"b":{"` + k + `":"v"}}`)
		one(`{"`+k+`":{"b":[true]}}`, `{"b":1,"`+k+`":{"b":[false,1]}}`)
	})

	if g.thorough {
		seqs(kchars, 3, func(s []string) { one(`{"x":{"` + strings.Join(s, "") + `":"v"},"b":2}`) })
	}

	one(`{"":1}`)
	one(`{"":{"":2},"a":{"":3}}`)
	one(`{"a":1,"a":2}`)
	one(`{"a":{"b":1},"a":{"b":2,"c":3}}`)
	one(`{"a.b":1,"a":{"b":2}}`)
	one(`{"a":{"b":2}}`, `{"a.b":1}`)
	one(`{"a":{"[0]":1}}`, `{"a":[2]}`)

	// Every value of limited depth.
	d2 := values([]string{`"x"`, `1`, `null`}, []string{"a", "b"}, 2, 2)
	for i, v := range d2 {
		if len(d2) > 30000 && i%1 != 0 {
			continue
		}

		one(obj("k", v))
	}

	// Sequences of lines.
	docs := []string{
		`{}`, `{"a":1}`, `{"a":"x"}`, `{"b":2}`, `{"b":true,"a":null}`, `{"a":{"b":1}}`, `{"a":{"c":"y"}}`, `{"a":[1,2]}`, `{"a":[]}`, `{"a":{}}`,
		`{"a":[{"b":1},{"c":2}]}`, `{"A":1}`, `{"B":{"a":1}}`, `{"c":1.5,"b":"x"}`,
	}

	upTo(docs, 3, func(s []string) { one(s...) })

	if g.thorough {
		seqs(docs, 4, func(s []string) { one(s...) })
	}

	// Case variants, with either sensitivity.
	kv := []string{`{"a":1}`, `{"A":2}`, `{"aB":3}`, `{"Ab":4}`, `{"a":{"B":1}}`, `{"A":{"b":2}}`, `{"aB":1,"AB":2,"ab":3}`, `{"ab":null,"AB":7}`}

	upTo(kv, 3, func(s []string) {
		one(s...)
		g.add(func() *Case {
			c := csvCase(lines(s...))
			c.Opts.CaseSensitive = true

			return c
		})
	})

	// White space, line ends, sizes.
	docs2 := []string{`{"a":1}`, ` {"a":1}`, "{\"a\" : 1 }\t", `{ "a":[ 1 , 2 ] }`, ``, "{}", `{"a":1}` + "\r"}

	upTo(docs2, 3, func(s []string) {
		if d := strings.Join(s, "\n"); d != "" {
			g.add(func() *Case { return csvCase(d) })
		}

		one(s...)
	})

	for _, n := range []int{1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 1000, 4095, 4096, 4097, 5000, 5001, 9000, 15000} {
		one(obj("a", `"`+rep("x", n)+`"`, "b", "1"))
		one(obj(rep("k", n), obj(rep("l", n), "1")), obj("b", "1"))
		one(obj("a", `"`+rep("é", n)+`\"`+rep("\\n", n)+`"`))
	}

	for n := 1; n <= 60; n++ {
		one(rep(`{"a":`, n) + `1` + rep(`}`, n))
		one(rep(`[`, 0) + `{"a":` + rep(`[`, n) + `"v"` + rep(`]`, n) + `,"b":2}`)
		one(rep(`{"k":[`, n)+`1`+rep(`]}`, n), obj("z", "2"))

		w := []string{}
		for i := 0; i < n; i++ {
			w = append(w, "k"+num(i), num(i))
		}

		one(obj(w...), obj("k0", "true", "k"+num(n), "1"))
		one(`{"a":[`+strings.TrimSuffix(rep("7,", n), ",")+`]}`, obj("b", "1"))
	}

	// Many lines: a reused parser and reused row buffers must not leak anything.
	for _, n := range []int{99, 100, 101, 199, 200, 201, 450} {
		g.add(func() *Case {
			var ls []string

			for i := 0; i < n; i++ {
				switch i % 5 {
				case 0:
					ls = append(ls, obj("a", num(i), "b", `"s`+num(i)+`"`))
				case 1:
					ls = append(ls, obj("b", `"t`+num(i)+`"`))
				case 2:
					ls = append(ls, `{}`)
				case 3:
					ls = append(ls, obj("c", "["+num(i)+`,{"d":`+num(i)+`}]`))
				default:
					ls = append(ls, obj("c", "[null,{}]", "a", "true"))
				}
			}

			return csvCase(lines(ls...))
		})
	}
}
