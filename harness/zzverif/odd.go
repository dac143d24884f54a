package zzverif

// oddNames are property names that mean something elsewhere: in pointers, in URLs, in
// expressions, or as keywords of schemas.
var oddNames = []string{"", " ", "~", "/", "~1", "%25", "%2", "$ref", "$id", "properties", "type", "not", "é", "日本", `"`, `\`, "0", "-", "#", "?", "a:b", "*", "..", "{}", "null"}

// odd generates from an object with such a property and checks its value.
func odd(in M, skip func(v any) bool) {
	name := oddNames[Choice("name", len(oddNames))]
	doc := M{"type": "object", "properties": M{name: in}, "required": L{name}, "additionalProperties": false}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "an unusual name is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
	v := g.Generate(o)
	m, _ := v.(map[string]any)
	x, has := m[name]
	Check("present", has && len(m) == 1, "the property is missing or another one is there")
	Check("own-schema", skip(x) || Valid(in, in, x), "a value violates its schema")
}

func H_P06_odd() { odd(M{"type": "integer", "minimum": 3, "maximum": 4}, never) }

func H_P09_odd() {
	odd(M{"type": "array", "contains": M{"const": 1}, "minContains": 1, "maxContains": 1, "items": M{"enum": L{1, 2}}, "minItems": 2, "maxItems": 2}, func(v any) bool {
		l, _ := v.([]any)
		return len(l) == 2 && unable(l[1])
	})
}

func H_P11_odd() { odd(M{"enum": L{1, 2, "x"}, "minimum": 2, "type": "integer"}, never) }

func H_P12_odd() { odd(M{"oneOf": L{M{"enum": L{1, 2}}, M{"const": 2}}}, oneOfFailed) }

func H_P13_odd() {
	odd(M{"type": "integer", "anyOf": L{M{"enum": L{1, 2}}, M{"const": 5}}}, oneOfFailed)
}

func H_P14_odd() {
	odd(M{"allOf": L{M{"type": "integer", "minimum": 3}, M{"maximum": 4}}}, never)
}

func H_P15_odd() { odd(M{"enum": L{1, 2}, "not": M{"const": 1}}, gaveUp) }

func H_P16_odd() {
	odd(M{"type": "integer", "minimum": 0, "maximum": 3, "if": M{"minimum": 2}, "then": M{"const": 3}, "else": M{"const": 0}}, func(v any) bool { return ifFailed(v, 1) })
}

// H_P14_odd_names: names that mean something elsewhere are merged like any other one.
func H_P14_odd_names() {
	name := oddNames[Choice("name", len(oddNames))]
	doc := M{"type": "object", "allOf": L{M{"properties": M{name: M{"type": "integer", "minimum": 3}}, "required": L{name}}, M{"properties": M{name: M{"maximum": 4}}, "additionalProperties": false}}}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "an unusual name is rejected")
	if clean(g, err) {
		o := opts()
		o.DefaultObjectMaxProperties = 1
		v := g.Generate(o)
		Check("every-branch", Valid(doc, doc, v), "a value violates one of the branches")
	}
}

// H_P15_odd_names: the same for names that are required under not.
func H_P15_odd_names() {
	name := oddNames[Choice("name", len(oddNames))]
	doc := M{"type": "object", "properties": M{name: M{"const": 1}, "other": M{"const": 2}}, "additionalProperties": false, "not": M{"required": L{name}}}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "an unusual name is rejected")
	if clean(g, err) {
		v := g.Generate(opts())
		Check("not-matched", gaveUp(v) || Valid(doc, doc, v), "a generated value matches the negated schema")
	}
}
