package zzverif

import "strings"

// gaveUp recognises the failure text of the post-generation constraints.
func gaveUp(v any) bool {
	t, ok := v.(string)
	return ok && strings.HasPrefix(t, "Failed to generate a valid value for the following constraints {")
}

// gaveUpInside looks for the failure text among the members of an object.
func gaveUpInside(v any) bool {
	m, _ := v.(map[string]any)
	for _, x := range m {
		if gaveUp(x) {
			return true
		}
	}
	return false
}

// excluded generates a value and judges it against the negated schemas.
func excluded(s M, nots L, mayFail bool) {
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 2
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties = 2, 2
	o.DefaultStringMaxLength = 3
	v := g.Generate(o)
	if gaveUp(v) {
		Check("gives-up", mayFail, "no value is found although the limits can be negated directly")
		return
	}
	for _, n := range nots {
		Check("not-matched", !Valid(s, n, v), "a generated value matches the negated schema")
	}
	rest := M{}
	for k, x := range s {
		if k != "not" && k != "allOf" {
			rest[k] = x
		}
	}
	if !gaveUpInside(v) {
		Check("surroundings", Valid(s, rest, v), "a value violates the keywords next to not")
	}
}

// placeNots puts the negations next to each other in one of the allowed ways.
func placeNots(s M, nots L) M {
	if len(nots) == 1 && Choice("where", 2) == 0 {
		s["not"] = nots[0]
		return s
	}
	if len(nots) == 2 && Choice("where", 2) == 0 {
		s["not"] = nots[0]
		s["allOf"] = L{M{"not": nots[1]}}
		return s
	}
	l := L{}
	for _, n := range nots {
		l = append(l, M{"not": n})
	}
	s["allOf"] = l
	return s
}

// H_P15_integer: numeric limits are negated for integers.
func H_P15_integer() {
	s := M{"type": "integer"}
	if Bool("minimum?") {
		s["minimum"] = Int("minimum", -4, 6)
	}
	if Bool("maximum?") {
		s["maximum"] = Int("maximum", -4, 6)
	}
	n := M{}
	switch Choice("lower", 3) {
	case 1:
		n["minimum"] = Int("not minimum", -4, 6)
	case 2:
		n["exclusiveMinimum"] = Int("not minimum", -4, 6)
	}
	switch Choice("upper", 3) {
	case 1:
		n["maximum"] = Int("not maximum", -4, 6)
	case 2:
		n["exclusiveMaximum"] = Int("not maximum", -4, 6)
	}
	if len(n) == 0 {
		return
	}
	if Bool("type in not?") {
		n["type"] = "integer"
	}
	excluded(placeNots(s, L{n}), L{n}, false)
}

// H_P15_number: numeric limits are negated for numbers.
func H_P15_number() {
	s := M{"type": "number"}
	if Bool("minimum?") {
		s["minimum"] = Int("minimum", -4, 6)
	}
	if Bool("maximum?") {
		s["maximum"] = Int("maximum", -4, 6)
	}
	n := M{}
	switch Choice("lower", 3) {
	case 1:
		n["minimum"] = Int("not minimum", -4, 6)
	case 2:
		n["exclusiveMinimum"] = Int("not minimum", -4, 6)
	}
	switch Choice("upper", 3) {
	case 1:
		n["maximum"] = Int("not maximum", -4, 6)
	case 2:
		n["exclusiveMaximum"] = Int("not maximum", -4, 6)
	}
	if len(n) == 0 {
		return
	}
	s["not"] = n
	excluded(s, L{n}, false)
}

// H_P15_multiple: multiples are excluded.
func H_P15_multiple() {
	s := M{"type": "integer", "minimum": Int("minimum", -3, 3), "maximum": Int("maximum", -1, 7)}
	if Bool("multiple?") {
		s["multipleOf"] = 2
	}
	n := M{"multipleOf": Int("not multiple", 2, 4)}
	if Bool("limit too?") {
		n["minimum"] = 1
	}
	s["not"] = n
	excluded(s, L{n}, true)
}

// H_P15_counts: lengths, item counts and property counts are negated.
func H_P15_counts() {
	kind := Choice("kind", 3)
	ty := []string{"string", "array", "object"}[kind]
	lo, hi := []string{"minLength", "minItems", "minProperties"}[kind], []string{"maxLength", "maxItems", "maxProperties"}[kind]
	s := M{"type": ty}
	if kind == 1 {
		s["items"] = M{"const": 1}
	}
	if kind == 2 {
		s["additionalProperties"] = M{"const": 1}
	}
	if Bool("min?") {
		s[lo] = Int("min", 0, 3)
	}
	if Bool("max?") {
		s[hi] = Int("max", 0, 4)
	}
	n := M{}
	if Bool("not min?") {
		n[lo] = Int("not min", 0, 4)
	}
	if Bool("not max?") {
		n[hi] = Int("not max", 0, 4)
	}
	if len(n) == 0 {
		return
	}
	s["not"] = n
	excluded(s, L{n}, false)
}

// H_P15_types: negated types are never generated.
func H_P15_types() {
	own := []any{nil, "integer", "string", L{"integer", "null"}, L{"boolean", "null", "integer"}, L{"number", "null"}}
	not := []any{"integer", "number", "null", "boolean", L{"null", "integer"}, L{"number", "boolean"}, L{"string", "object", "array", "number"}}
	s := M{}
	if t := own[Choice("own type", len(own))]; t != nil {
		s["type"] = t
	}
	n := M{"type": not[Choice("negated type", len(not))]}
	excluded(placeNots(s, L{n}), L{n}, false)
}

// H_P15_values: negated constants and enums are never generated.
func H_P15_values() {
	own := []M{
		{"enum": L{1, 2, "x", nil}}, {"type": "boolean"}, {"type": "integer", "minimum": 1, "maximum": 2},
		{"type": L{"boolean", "null"}}, {"const": 2}, {"const": nil}, {"enum": L{false}},
	}
	not := []M{{"const": 2}, {"const": nil}, {"enum": L{1, nil}}, {"enum": L{true, 2}}, {"const": true}, {"const": false}, {"enum": L{1, 2, "x"}}}
	s := M{}
	for k, v := range own[Choice("own", len(own))] {
		s[k] = v
	}
	n := not[Choice("negated", len(not))]
	excluded(placeNots(s, L{n}), L{n}, true)
}

// H_P15_required: negated required keys and property values.
func H_P15_required() {
	s := M{"type": "object", "properties": M{"a": M{"type": "integer", "minimum": 0, "maximum": 2}, "b": M{"type": "boolean"}}, "additionalProperties": false}
	switch Choice("required", 3) {
	case 1:
		s["required"] = L{"a"}
	case 2:
		s["required"] = L{"a", "b"}
	}
	var n M
	switch Choice("negated", 5) {
	case 0:
		n = M{"required": L{"a"}}
	case 1:
		n = M{"required": L{"b"}}
	case 2:
		n = M{"properties": M{"a": M{"const": 1}}, "required": L{"a"}}
	case 3:
		n = M{"required": L{"a", "b"}}
	case 4:
		n = M{"properties": M{"b": M{"const": true}}, "required": L{"b"}}
	}
	excluded(placeNots(s, L{n}), L{n}, true)
}

// H_P15_undeclared: negated properties that the surroundings do not declare but restrict otherwise.
func H_P15_undeclared() {
	k := Int("k", 1, 3)
	s := M{"type": "object", "properties": M{"a": M{"type": "integer", "minimum": 0, "maximum": 2}}}
	switch Choice("others", 5) {
	case 0:
		s["additionalProperties"] = M{"type": "integer", "minimum": 0, "maximum": 4}
	case 1:
		s["additionalProperties"] = false
		s["required"] = L{"a"}
	case 2:
		s["patternProperties"] = M{"^b$": M{"type": "integer", "minimum": 0, "maximum": 4}}
		s["additionalProperties"] = false
	case 3:
		s["patternProperties"] = M{"^c": M{"const": nil}}
		s["additionalProperties"] = M{"type": "integer", "minimum": 0, "maximum": 4}
	case 4:
		s["additionalProperties"] = M{"$ref": "#/$defs/d"}
	}
	n := M{"properties": M{"b": M{"minimum": k}}}
	switch Choice("negated", 3) {
	case 1:
		n["required"] = L{"b"}
	case 2:
		n["properties"] = M{"b": M{"minimum": k}, "a": M{"maximum": k - 1}}
		n["required"] = L{"a"}
	}
	if Bool("b required?") {
		s["required"] = L{"b"}
	}
	doc := placeNots(s, L{n})
	doc["$defs"] = M{"d": M{"type": "integer", "minimum": 0, "maximum": 4}}
	excluded(doc, L{n}, true)
}

// H_P15_several: several negations hold together.
func H_P15_several() {
	s := M{"type": "integer", "minimum": 0, "maximum": 9}
	var nots L
	a, b := Int("a", 0, 9), Int("b", 0, 9)
	switch Choice("negations", 5) {
	case 0:
		nots = L{M{"maximum": a}, M{"minimum": b}}
	case 1:
		nots = L{M{"const": a}, M{"minimum": b}}
	case 2:
		nots = L{M{"enum": L{0, 1}}, M{"multipleOf": 3}}
	case 3:
		nots = L{M{"minimum": 3, "maximum": 5}, M{"maximum": a}}
	case 4:
		nots = L{M{"const": 1}, M{"const": 2}}
	}
	excluded(placeNots(s, nots), nots, true)
}

// H_P15_double: a double negation is the schema itself.
func H_P15_double() {
	in := []M{
		{"minimum": Int("minimum", 0, 5)}, {"const": 3}, {"enum": L{1, 2}}, {"type": "integer", "maximum": 4}, {"multipleOf": 2},
	}[Choice("inner", 5)]
	s := M{"type": "integer", "minimum": 0, "maximum": 6}
	n := M{"not": in}
	if Bool("four times?") {
		n = M{"not": M{"not": n}}
	}
	s["not"] = n
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 2
	v := g.Generate(o)
	Check("same-schema", Valid(s, s, v), "a value violates a doubly negated schema")
}

// H_P15_nested: negations inside objects and arrays.
func H_P15_nested() {
	in := M{"type": "integer", "minimum": 0, "maximum": 3, "not": []any{M{"const": 1}, M{"maximum": 1}, M{"enum": L{0, 2, 3}}}[Choice("negated", 3)]}
	s := M{"type": "object", "properties": M{"p": in}, "required": L{"p"}, "additionalProperties": false}
	if Bool("array?") {
		s = M{"type": "array", "items": in, "minItems": 1, "maxItems": 1}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 2
	var v any
	switch x := g.Generate(o).(type) {
	case map[string]any:
		v = x["p"]
	case []any:
		v = x[0]
	}
	if gaveUp(v) {
		return
	}
	Check("not-matched", Valid(s, in, v), "a nested value matches the negated schema")
}

// H_P15_format: negated formats are never generated, and values are found.
func H_P15_format() {
	formats := []string{"email", "ipv4", "ipv6", "uuid", "date", "date-time", "hostname"}
	own := []M{{"type": "string"}, {"type": L{"integer", "string"}}, {"type": "string", "format": "ipv4"}, {"type": "string", "format": "email"}, {"enum": L{"2020-01-01", "a@b.c", "::1", 3}}}
	i := Choice("own", len(own))
	s := M{}
	for k, v := range own[i] {
		s[k] = v
	}
	n := M{"format": formats[Choice("negated", len(formats))]}
	nots := L{n}
	if Bool("two?") {
		nots = L{n, M{"format": "uuid"}}
	}
	if Bool("typed?") {
		n["type"] = "string"
	}
	if Bool("single?") {
		if len(nots) == 2 {
			return
		}
		s["not"] = n
	} else {
		s["allOf"] = L{M{"not": n}}
		if len(nots) == 2 {
			s["allOf"] = L{M{"not": n}, M{"not": nots[1]}}
		}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1
	v := g.Generate(o)
	Expect("value found")
	if gaveUp(v) {
		return
	}
	if _, ok := v.(string); ok && i < 2 {
		Cover("value found", true)
	}
	for _, n := range nots {
		Check("not-matched", !Valid(s, n, v), "a generated value matches the negated format")
	}
}

// H_P15_contains: arrays that must not contain something, or not that often.
func H_P15_contains() {
	not := M{"contains": M{"const": 1}}
	if Bool("range?") {
		not = M{"contains": M{"type": "integer", "minimum": 2}}
	}
	if Bool("minContains?") {
		not["minContains"] = Int("minContains", 0, 2)
	}
	if Bool("maxContains?") {
		not["maxContains"] = Int("maxContains", 0, 2)
	}
	s := M{"type": "array", "items": M{"enum": L{1, 2}}, "maxItems": 3, "not": not}
	switch Choice("beside", 4) {
	case 0:
		s["minItems"] = 2
	case 1:
		s["contains"] = M{"const": 2}
	case 2:
		s["contains"] = M{"type": "integer"}
		s["maxContains"] = 2
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1
	o.DefaultArrayMaxItems = 2
	v := generated(g, o)
	if _, ok := v.(string); ok {
		return
	}
	l, ok := v.([]any)
	Check("array", ok, "no array generated")
	for _, x := range l {
		if unable(x) {
			return
		}
	}
	Check("valid", Valid(s, s, v), "the array is what it must not be")
}

// H_P15_alike: properties whose names look alike have their own negated schemas.
func H_P15_alike() {
	but := func(k int) M {
		return M{"type": "integer", "minimum": 0, "maximum": 1, "not": M{"const": k}}
	}
	alike(but(0), but(1), func(v any) bool { return gaveUp(v) })
}
