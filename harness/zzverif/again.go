package zzverif

import (
	"regexp/syntax"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/internal/regen"
)

// The harnesses in this file use a generator more than once and several documents, with other
// limits under the same names, next to each other: what one document says and what has been
// generated before does not matter.

// again generates from two documents in turn and judges each value by its own document. Values
// for which skip holds are the documented texts for what cannot be found.
func again(one, other M, skip func(v any) bool) {
	p := &chaff.ParserOptions{}
	docs := []M{one, other}
	gens := []chaff.RootGenerator{}
	for _, d := range docs {
		g, err := chaff.ParseSchema(JSON(d), p)
		Check("accepted", clean(g, err), "a document is rejected")
		if !clean(g, err) {
			return
		}
		gens = append(gens, g)
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties = 2, 2
	for _, i := range [][]int{{1, 0, 1}, {0, 0, 1}}[Choice("order", 2)] {
		v := gens[i].Generate(o)
		Check("own-document", skip(v) || Valid(docs[i], docs[i], v), "a value violates the document it is generated from")
	}
}

func never(v any) bool { return false }

func H_P01_again() {
	switch Choice("kind", 3) {
	case 0:
		again(M{"type": "integer", "minimum": 0, "maximum": 1}, M{"type": "integer", "minimum": 5, "maximum": 6}, never)
	case 1:
		again(M{"type": "number", "exclusiveMinimum": 0, "maximum": 1}, M{"type": "number", "minimum": 2, "exclusiveMaximum": 3}, never)
	case 2:
		again(M{"type": "integer", "maximum": -3}, M{"type": "integer", "exclusiveMinimum": 3}, never)
	}
}

func H_P02_again() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	again(M{"type": typ, "multipleOf": 2, "minimum": 0, "maximum": 7}, M{"type": typ, "multipleOf": 3, "minimum": 0, "maximum": 7}, never)
}

func H_P03_again() {
	bad := M{"type": "integer", "minimum": 2, "maximum": 1}
	good := M{"type": "integer", "minimum": 1, "maximum": 2}
	for _, i := range [][]int{{0, 1, 0}, {1, 0, 1}}[Choice("order", 2)] {
		accepted([]M{good, bad}[i], i == 0)
	}
}

func H_P04_again() {
	again(M{"type": "string", "minLength": 1, "maxLength": 3}, M{"type": "string", "minLength": 30, "maxLength": 31}, never)
}

func H_P05_again() {
	switch Choice("kind", 3) {
	case 0:
		again(M{"type": "string", "pattern": "^a{1,2}$"}, M{"type": "string", "pattern": "^b{1,2}$"}, never)
	case 1:
		again(M{"type": "object", "patternProperties": M{"^a[xy]$": M{"const": 1}}, "additionalProperties": false, "minProperties": 1}, M{"type": "object", "patternProperties": M{"^b[xy]$": M{"const": 1}}, "additionalProperties": false, "minProperties": 1}, never)
	case 2:
		again(M{"type": "string", "pattern": "^k$"}, M{"type": "string", "pattern": "^(?i)k$"}, never)
	}
}

func H_P06_again() {
	again(M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "required": L{"a"}, "additionalProperties": false},
		M{"type": "object", "properties": M{"a": M{"const": 3}, "b": M{"const": 4}}, "required": L{"b"}, "additionalProperties": false}, never)
}

func H_P07_again() {
	switch Choice("kind", 2) {
	case 0:
		again(M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "minProperties": 1, "maxProperties": 1, "additionalProperties": false},
			M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "minProperties": 2, "additionalProperties": false}, never)
	case 1:
		again(M{"type": "object", "minProperties": 1, "maxProperties": 1, "additionalProperties": M{"const": "x"}},
			M{"type": "object", "minProperties": 1, "maxProperties": 1, "additionalProperties": M{"const": "y"}}, never)
	}
}

func H_P08_again() {
	again(M{"type": "array", "prefixItems": L{M{"const": "p"}}, "items": M{"const": 1}, "minItems": 1, "maxItems": 3},
		M{"type": "array", "prefixItems": L{M{"const": "q"}}, "items": M{"const": 2}, "minItems": 4, "maxItems": 5}, never)
}

func H_P09_again() {
	again(M{"type": "array", "contains": M{"const": 1}, "minContains": 1, "items": M{"enum": L{1, 2}}, "maxItems": 3},
		M{"type": "array", "contains": M{"const": 2}, "minContains": 2, "items": M{"enum": L{1, 2}}, "maxItems": 4}, never)
}

func H_P10_again() {
	dup := func(v any) bool {
		l, _ := v.([]any)
		for _, x := range l {
			if t, ok := x.(string); ok && strings.HasPrefix(t, "Warning: Unable to generate unique item after ") {
				return true
			}
		}
		return false
	}
	again(M{"type": "array", "uniqueItems": true, "items": M{"enum": L{1, 2}}, "minItems": 2, "maxItems": 2},
		M{"type": "array", "uniqueItems": true, "prefixItems": L{M{"const": 1}}, "items": M{"enum": L{1, 3}}, "minItems": 2, "maxItems": 2}, dup)
}

func H_P11_again() {
	switch Choice("kind", 2) {
	case 0:
		again(M{"enum": L{1, 2, "a"}, "minimum": 2}, M{"enum": L{1, 2, "a"}, "maximum": 1}, never)
	case 1:
		again(M{"const": L{1}}, M{"const": M{"a": L{2}}}, never)
	}
}

func oneOfFailed(v any) bool { return failed(v, "oneOf", 1) }

func H_P12_again() {
	again(M{"oneOf": L{M{"enum": L{1, 2}}, M{"const": 2}}}, M{"oneOf": L{M{"const": 1}, M{"enum": L{1, 3}}}}, oneOfFailed)
}

func H_P13_again() {
	again(M{"type": "integer", "anyOf": L{M{"const": 1}, M{"enum": L{2, 3}}}}, M{"type": "integer", "anyOf": L{M{"const": 4}, M{"enum": L{5, 6}}}}, oneOfFailed)
}

func H_P14_again() {
	switch Choice("kind", 2) {
	case 0:
		again(M{"allOf": L{M{"type": "integer", "minimum": 0}, M{"maximum": 1}}}, M{"allOf": L{M{"type": "integer", "minimum": 3}, M{"maximum": 4}}}, never)
	case 1:
		again(M{"type": "object", "allOf": L{M{"properties": M{"a": M{"type": "integer", "minimum": 0}}}, M{"properties": M{"a": M{"maximum": 1}}, "required": L{"a"}, "additionalProperties": false}}},
			M{"type": "object", "allOf": L{M{"properties": M{"a": M{"type": "integer", "minimum": 3}}}, M{"properties": M{"a": M{"maximum": 4}}, "required": L{"a"}, "additionalProperties": false}}}, never)
	}
}

func H_P15_again() {
	switch Choice("kind", 3) {
	case 0:
		again(M{"enum": L{1, 2, 3}, "not": M{"const": 1}}, M{"enum": L{1, 2, 3}, "not": M{"const": 3}}, gaveUp)
	case 1:
		again(M{"type": "integer", "minimum": 0, "maximum": 3, "not": M{"minimum": 2}}, M{"type": "integer", "minimum": 0, "maximum": 3, "not": M{"maximum": 1}}, gaveUp)
	case 2:
		again(M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "additionalProperties": false, "not": M{"required": L{"a"}}},
			M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "additionalProperties": false, "not": M{"required": L{"b"}}}, gaveUp)
	}
}

func H_P16_again() {
	c := func(bound, then int) M {
		return M{"type": "integer", "minimum": 0, "maximum": 3, "if": M{"minimum": bound}, "then": M{"const": then}, "else": M{"maximum": 0}}
	}
	again(c(1, 1), c(2, 3), func(v any) bool { return ifFailed(v, 1) })
}

func H_P17_again() {
	d := func(x any) M {
		return M{"type": "object", "properties": M{"a": M{"$ref": "#/$defs/d"}, "b": M{"$ref": "#/definitions/d"}, "c": M{"$ref": "here"}, "d": M{"$ref": "#/$defs/d"}}, "required": L{"a", "b", "c", "d"}, "additionalProperties": false,
			"$defs": M{"d": M{"const": x}, "n": M{"$id": "here", "const": L{x}}}, "definitions": M{"d": M{"const": M{"is": x}}}}
	}
	one, other := d(1), d(2)
	gens := []chaff.RootGenerator{}
	for _, s := range []M{one, other} {
		if Bool("same identifier?") {
			s["$id"] = "https://a.test/s.json"
		}
		g, err := parse(s)
		Check("accepted", clean(g, err), "a document is rejected")
		if !clean(g, err) {
			return
		}
		gens = append(gens, g)
	}
	for _, i := range []int{1, 0, 1, 0} {
		m, _ := gens[i].Generate(opts()).(map[string]any)
		x := i + 1
		Check("own-document", SameJSON(m["a"], x) && SameJSON(m["d"], x), "a pointer leads into another document")
		Check("own-document", SameJSON(m["b"], M{"is": x}), "a pointer leads into another document")
		Check("own-document", SameJSON(m["c"], L{x}), "an identifier leads into another document")
	}
}

func H_P18_again() {
	doc, distinct, _ := recursive(Choice("form", 2) * 2)
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a schema that refers to itself is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumReferenceDepth = 3
	for i := 0; i < 3; i++ {
		o.BypassCyclicReferenceCheck = i == 1
		v := g.Generate(o)
		checkCuts(v, i == 1, false)
		if i == 1 {
			Check("depth", nest(v) >= 3 && nest(v) <= 4, "the recursion does not end at the depth that is configured")
		} else {
			Check("depth", nest(v) == distinct, "the recursion does not end where it gets back to its start")
		}
	}
}

// H_P20_again: each call and each document has the options it is given.
func H_P20_again() {
	switch Choice("kind", 4) {
	case 0: // the same expression with other repeats
		var gens []chaff.RootGenerator
		for _, n := range []uint{1, 4, 2} {
			args := &regen.GeneratorArgs{MaxUnboundedRepeatCount: n, MinUnboundedRepeatCount: n, SuppressRandomBytes: true, Flags: syntax.PerlX}
			g, err := chaff.ParseSchema(JSON(M{"type": "string", "pattern": "^y*$"}), &chaff.ParserOptions{RegexStringOptions: args})
			Check("accepted", clean(g, err), "a plain schema is rejected")
			if !clean(g, err) {
				return
			}
			gens = append(gens, g)
		}
		for _, i := range []int{1, 0, 2} {
			t, _ := gens[i].Generate(opts()).(string)
			Check("own-options", len(t) == []int{1, 4, 2}[i], "the options of another document are used")
		}
	case 1: // the same generator with other limits
		g, err := parse(M{"type": "object", "properties": M{"l": M{"type": "array", "items": M{"const": 1}}}, "required": L{"l"}, "additionalProperties": M{"const": 2}})
		if !clean(g, err) {
			return
		}
		for _, n := range [][]int{{0, 2, 4}, {4, 0, 2}}[Choice("order", 2)] {
			o := opts()
			o.DefaultArrayMinItems, o.DefaultArrayMaxItems = n, n+1
			o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties = 1, 1
			m, _ := g.Generate(o).(map[string]any)
			l, isList := m["l"].([]any)
			Check("own-options", isList && len(l) == n, "the options of another call are used")
		}
	case 2: // the same generator with other attempts
		g, err := parse(M{"type": "array", "uniqueItems": true, "items": M{"const": 1}, "minItems": 2, "maxItems": 2})
		if !clean(g, err) {
			return
		}
		for _, n := range [][]int{{1, 5, 2}, {5, 1, 3}}[Choice("order", 2)] {
			o := opts()
			o.MaximumUniqueGeneratorAttempts = n
			l, _ := g.Generate(o).([]any)
			Check("own-options", len(l) == 2 && strings.Contains(find(l[1:]).(string), " after "+digits(n)+" attempts"), "the attempts of another call are used")
		}
	case 3: // parse depths
		doc := M{"type": "array", "items": M{"type": "array", "items": M{"type": "array", "items": M{"const": 1}}}}
		for _, n := range [][]int{{2, 50, 2}, {50, 2, 50}}[Choice("order", 2)] {
			g, err := chaff.ParseSchema(JSON(doc), &chaff.ParserOptions{MaxParseDepth: n})
			Check("own-options", clean(g, err) == (n == 50), "the parse depth of another document is used")
		}
	}
}

// H_P19_again: each call has a budget of its own.
func H_P19_again() {
	g, err := parse(M{"type": "array", "items": M{"type": "array", "items": M{"const": 1}, "minItems": 1, "maxItems": 3}, "minItems": 2, "maxItems": 2})
	Check("accepted", clean(g, err), "a plain schema is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumGenerationSteps = Int("minimise", 1, 8)
	o.CutoffGenerationSteps = 60
	Expect("more than the fewest, again")
	for i := 0; i < 2; i++ {
		l, _ := g.Generate(o).([]any)
		Check("whole", len(l) == 2, "elements are missing")
		if len(l) != 2 {
			return
		}
		first, _ := l[0].([]any)
		Check("whole", len(first) >= 1, "elements are missing")
		if i == 1 {
			Cover("more than the fewest, again", len(first) > 1)
		}
	}
}

func H_P21_again() {
	FSCwd("/w")
	FSFile("/w/f", `{"const":"w"}`)
	FSFile("/w/d/f", `{"const":"d"}`)
	FSFile("/o/f", `{"const":"o"}`)
	ref := []string{"f", "d/f", "../o/f"}[Choice("reference", 3)]
	for i := 0; i < 3; i++ {
		p := &chaff.ParserOptions{}
		fs := &p.DocumentFetchOptions.FileSystemFetchOptions
		fs.Enabled = true
		permitted := false
		switch Choice("access", 3) {
		case 0:
			permitted = ref != "../o/f"
		case 1:
			fs.AllowedPaths = []string{"d"}
			permitted = ref == "d/f"
		case 2:
			fs.AllowOutsideCwd = true
			permitted = true
		}
		g, err := chaff.ParseSchema(JSON(M{"$ref": ref}), p)
		Check("only-permitted", clean(g, err) == permitted, "what was permitted before decides about a reference")
	}
}

func H_P22_again() {
	HTTPServe("https://a.test/f", 200, "", `{"const":"a"}`)
	HTTPServe("http://a.test/f", 200, "", `{"const":"a"}`)
	ref := []string{"https://a.test/f", "http://a.test/f"}[Choice("reference", 2)]
	for i := 0; i < 3; i++ {
		p := &chaff.ParserOptions{}
		h := &p.DocumentFetchOptions.HTTPFetchOptions
		h.Enabled = true
		permitted := false
		switch Choice("access", 3) {
		case 0:
			permitted = ref == "https://a.test/f"
		case 1:
			h.AllowInsecure = true
			h.AllowedHosts = []string{"b.test"}
		case 2:
			h.AllowInsecure = true
			permitted = true
		}
		before := len(Accesses())
		g, err := chaff.ParseSchema(JSON(M{"$ref": ref}), p)
		Check("only-permitted", clean(g, err) == permitted, "what was permitted before decides about a reference")
		Check("only-permitted", permitted || len(Accesses()) == before, "a request is made that is not permitted")
	}
}

func H_P23_again() {
	FSCwd("/w")
	FSFile("/w/f", `{"const":"w"}`)
	HTTPServe("https://a.test/f", 200, "", `{"const":"a"}`)
	refs := []string{"f", "https://a.test/f"}
	p := &chaff.ParserOptions{}
	kind := Choice("enabled before", 2)
	p.DocumentFetchOptions.FileSystemFetchOptions.Enabled = kind == 0
	p.DocumentFetchOptions.HTTPFetchOptions.Enabled = kind == 1
	g, err := chaff.ParseSchema(JSON(M{"$ref": refs[kind]}), p)
	Check("enabled", clean(g, err), "access that is enabled does not work")
	before := len(Accesses())
	for _, ref := range refs {
		g, err = parse(M{"$ref": ref})
		Check("rejected", !clean(g, err), "a reference to another document is accepted")
		Check("no-access", len(Accesses()) == before, "a file is read or a request is made although nothing is enabled")
	}
}

func H_P24_again() {
	a := []M{{"type": L{"integer", "boolean"}, "minimum": 0, "maximum": 1}, {"enum": L{1, true}, "type": "boolean"}, {"minimum": 0, "maximum": 1}}[Choice("one", 3)]
	again(a, M{"type": L{"null", "boolean"}}, never)
}

func H_P26_again() {
	good := M{"type": "object", "properties": M{"p": M{"type": "integer", "minimum": 1, "maximum": 2}}}
	bad := M{"type": "object", "properties": M{"p": M{"type": "integer", "minimum": 2, "maximum": 1}}}
	p := &chaff.ParserOptions{}
	for _, isBad := range [][]bool{{false, true, false}, {true, false, true}, {true, true, false}}[Choice("order", 3)] {
		d := good
		if isBad {
			d = bad
		}
		g, err := chaff.ParseSchema(JSON(d), p)
		Check("own-errors", clean(g, err) == !isBad, "the errors of one document show up with another one, or are missing")
	}
}

func H_P27_again() {
	f := supportedFormats[Choice("format", len(supportedFormats))]
	g1, err1 := parse(M{"type": "string", "format": f})
	g2, err2 := parse(M{"type": "string", "format": []string{"ipv4", "date"}[Choice("other", 2)]})
	if !clean(g1, err1) || !clean(g2, err2) {
		return
	}
	o := opts()
	g2.Generate(o)
	formatted(f, g1.Generate(o))
}

func H_P32_again() {
	again(M{"type": "array", "prefixItems": L{M{"const": "p"}}, "unevaluatedItems": false, "minItems": 1},
		M{"type": "array", "prefixItems": L{M{"const": "q"}}, "unevaluatedItems": M{"const": 1}, "minItems": 2, "maxItems": 4}, never)
}
