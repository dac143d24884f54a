package zzverif

import (
	"fmt"
	"strings"
)

// ifFailed recognises the documented failure text for conditions.
func ifFailed(v any, attempts int) bool {
	t, ok := v.(string)
	return ok && strings.HasPrefix(t, fmt.Sprintf("Failed to generate a valid value for the following if constraints after %d attempts: [", attempts))
}

// consistent judges a value against every condition and the surroundings.
func consistent(s M, conds L, attempts int, v any) {
	if ifFailed(v, attempts) || gaveUp(v) {
		return
	}
	for _, c := range conds {
		m := c.(M)
		if Valid(s, m["if"], v) {
			if m["then"] != nil {
				Check("then-holds", Valid(s, m["then"], v), "the condition holds but then does not")
			}
		} else if m["else"] != nil {
			Check("else-holds", Valid(s, m["else"], v), "the condition does not hold and neither does else")
		}
	}
	Check("surroundings", Valid(s, s, v), "a value violates the keywords next to if")
}

// runIf parses, generates and judges.
func runIf(s M, conds L, most int) {
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumIfAttempts = 1 + Choice("attempts", most)
	o.MaximumUniqueGeneratorAttempts = 1
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties = 2, 2
	consistent(s, conds, o.MaximumIfAttempts, g.Generate(o))
}

// pick leaves out then or else.
func pick(s M, c M) {
	switch Choice("branches", 3) {
	case 1:
		delete(c, "then")
	case 2:
		delete(c, "else")
	}
	for k, v := range c {
		s[k] = v
	}
}

// H_P16_numbers: conditions over numeric ranges.
func H_P16_numbers() {
	s := M{"type": "integer", "minimum": 0, "maximum": 9}
	c := M{"if": M{"maximum": Int("if maximum", 0, 9)}, "then": M{"minimum": Int("then minimum", 0, 6)}, "else": M{"maximum": Int("else maximum", 0, 9)}}
	pick(s, c)
	runIf(s, L{c}, 2)
}

// H_P16_values: conditions over constants, enums and types.
func H_P16_values() {
	s := M{"enum": L{1, 2, "x", nil, true}}
	c := []M{
		{"if": M{"const": 1}, "then": M{"type": "string"}, "else": M{"enum": L{2, "x", nil}}},
		{"if": M{"type": "string"}, "then": M{"const": "x"}, "else": M{"type": L{"null", "boolean"}}},
		{"if": M{"type": "integer"}, "then": M{"minimum": 2}, "else": M{"not": M{"const": nil}}},
		{"if": M{"const": nil}, "then": M{"const": nil}, "else": M{"type": "boolean"}},
		{"if": M{"enum": L{true, 1}}, "then": M{"type": "boolean"}, "else": M{"const": 2}},
		{"if": false, "then": M{"const": 1}, "else": M{"const": 2}},
	}[Choice("condition", 5)]
	d := M{}
	for k, v := range c {
		d[k] = v
	}
	pick(s, d)
	runIf(s, L{d}, 2)
}

// H_P16_objects: conditions over properties.
func H_P16_objects() {
	s := M{"type": "object", "properties": M{"kind": M{"enum": L{"a", "b"}}, "size": M{"type": "integer", "minimum": 0, "maximum": 3}}, "additionalProperties": false}
	if Bool("required?") {
		s["required"] = L{"kind"}
	}
	c := M{"if": M{"properties": M{"kind": M{"const": "a"}}}, "then": M{"required": L{"size"}}, "else": M{"properties": M{"size": M{"minimum": 2}}}}
	if Bool("condition requires?") {
		c["if"].(M)["required"] = L{"kind"}
	}
	switch Choice("then", 4) {
	case 1:
		c["then"] = M{"properties": M{"size": M{"maximum": 0}}, "required": L{"size"}}
	case 2:
		c["then"] = M{"maxProperties": 1}
	case 3:
		c["then"] = M{"type": "object", "properties": M{"size": M{"type": "integer", "maximum": 0}}}
	}
	pick(s, c)
	runIf(s, L{c}, 1)
}

// H_P16_several: conditions gathered by allOf.
func H_P16_several() {
	s := M{"type": "integer", "minimum": 0, "maximum": 5}
	a, b := Int("a", 0, 5), Int("b", 0, 5)
	conds := L{
		M{"if": M{"maximum": 2}, "then": M{"minimum": a}},
		M{"if": M{"minimum": 3}, "then": M{"maximum": b}, "else": M{"multipleOf": 2}},
	}
	if Bool("third?") {
		conds = append(conds, M{"if": M{"const": 0}, "else": M{"minimum": 1}})
	}
	switch Choice("where", 3) {
	case 0:
		s["allOf"] = conds
	case 1:
		for k, v := range conds[0].(M) {
			s[k] = v
		}
		s["allOf"] = conds[1:]
	case 2:
		s["allOf"] = L{M{"allOf": conds[:1]}, M{"allOf": conds[1:]}}
	}
	runIf(s, conds, 1)
}

// H_P16_halves: conditions with then or else alone, one of which may undo the other.
func H_P16_halves() {
	a, b := Int("a", 0, 5), Int("b", 0, 5)
	conds := L{
		M{"if": M{"minimum": a}, []string{"else", "then"}[Choice("first", 2)]: M{"minimum": 3}},
		M{"if": M{"maximum": 4}, []string{"else", "then"}[Choice("second", 2)]: M{"maximum": b}},
	}
	runIf(M{"type": "integer", "minimum": 0, "maximum": 5, "allOf": conds}, conds, 1)
}

// H_P16_placed: conditions inside objects, arrays and combinations.
func H_P16_placed() {
	c := M{"if": M{"maximum": 1}, "then": M{"const": 0}, "else": M{"minimum": 3}}
	in := M{"type": "integer", "minimum": 0, "maximum": 4}
	for k, v := range c {
		in[k] = v
	}
	var s M
	switch Choice("place", 5) {
	case 0:
		s = M{"type": "object", "properties": M{"p": in}, "required": L{"p"}, "additionalProperties": false}
	case 1:
		s = M{"type": "array", "items": in, "minItems": 1, "maxItems": 1}
	case 2:
		s = M{"oneOf": L{in, M{"type": "null"}}}
	case 3:
		s = M{"anyOf": L{in}}
	case 4:
		s = M{"$ref": "#/$defs/d", "$defs": M{"d": in}}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumIfAttempts, o.MaximumOneOfAttempts = 1, 1
	v := g.Generate(o)
	switch x := v.(type) {
	case map[string]any:
		v = x["p"]
	case []any:
		v = x[0]
	}
	if ifFailed(v, 1) || failed(v, "oneOf", 1) || v == nil {
		return
	}
	Check("consistent", Valid(s, in, v), "a nested value is inconsistent with its condition")
}

// H_P16_nested: conditions inside then and else.
func H_P16_nested() {
	a := Int("a", 0, 4)
	s := M{"type": "integer", "minimum": 0, "maximum": 4,
		"if":   M{"maximum": 2},
		"then": M{"if": M{"maximum": 1}, "then": M{"const": 0}, "else": M{"multipleOf": 2}},
		"else": M{"if": M{"const": a}, "then": M{"const": 4}, "else": M{"maximum": 3}}}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumIfAttempts = 1
	v := g.Generate(o)
	if !ifFailed(v, 1) {
		Check("consistent", Valid(s, s, v), "a value is inconsistent with nested conditions")
	}
}

// H_P16_formats: conditions over formats.
func H_P16_formats() {
	f := []string{"email", "ipv4", "uuid", "date"}
	own := []M{{"type": "string"}, {"type": "string", "format": "ipv4"}, {"type": L{"string", "integer"}, "format": "date"}, {"enum": L{"2020-01-01", "1.2.3.4", "x"}}}[Choice("own", 4)]
	s := M{}
	for k, v := range own {
		s[k] = v
	}
	c := M{"if": M{"format": f[Choice("if", len(f))], "type": "string"}, "then": M{"maxLength": 12}, "else": M{"not": M{"format": f[Choice("else not", len(f))]}}}
	if Bool("other way?") {
		c["then"], c["else"] = c["else"], M{"minLength": 3}
	}
	pick(s, c)
	runIf(s, L{c}, 1)
}

// H_P16_alike: properties whose names look alike have their own conditions.
func H_P16_alike() {
	when := func(k int) M {
		return M{"type": "integer", "minimum": 0, "maximum": 1, "if": M{"const": k}, "then": M{"maximum": k}, "else": M{"minimum": k}}
	}
	alike(when(0), when(1), func(v any) bool { _, isText := v.(string); return isText })
}
