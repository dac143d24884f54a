package zzverif

import (
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// A panic that escapes a harness is a violation ("no-panic"), as is recursion
// without end ("terminates").

var keywords = []string{
	"type", "length", "properties", "additionalProperties", "patternProperties", "minProperties", "maxProperties", "required",
	"pattern", "format", "minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
	"items", "minItems", "maxItems", "contains", "minContains", "maxContains", "prefixItems", "additionalItems", "unevaluatedItems", "uniqueItems",
	"enum", "const", "not", "allOf", "anyOf", "oneOf", "if", "then", "else", "$ref", "$id", "$schema", "$defs", "definitions",
	"dependentRequired", "propertyNames", "unevaluatedProperties", "dependentSchemas", "$anchor", "$dynamicRef",
}

var oddValues = []any{
	nil, true, false, 0, 1, -1, 2.5, -0.5, -1e300, "", "x", "#", "string", "^a$", L{}, L{nil}, L{1, 2}, L{"a"}, L{M{}}, L{M{"type": "null"}, M{"type": "string"}}, L{true}, M{}, M{"a": 1}, M{"a": nil}, M{"a": M{}}, M{"type": "null"}, M{"type": "integer"}, M{"$ref": "#"}, L{L{}},
}

// tryOut parses and generates whatever comes of it.
func tryOut(doc []byte) {
	g, err := chaff.ParseSchema(doc, &chaff.ParserOptions{})
	if err == nil || g.Generator != nil {
		o := smallOpts()
		o.MaximumIfAttempts, o.MaximumOneOfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
		o.MaximumGenerationSteps, o.CutoffGenerationSteps, o.MaximumReferenceDepth = size(2, 4), size(4, 8), 2
		g.Generate(o)
	}
	Expect("finished")
	Cover("finished", true)
}

// H_P25_keyword: every keyword with values of every kind, at several places.
func H_P25_keyword() {
	k := keywords[Choice("keyword", len(keywords))]
	v := oddValues[Choice("value", len(oddValues))]
	s := M{k: v}
	if t := Choice("type", size(2, 9)); t > 0 {
		if k == "type" {
			return
		}
		s["type"] = append([]string{"array", "object", "string", "integer", "number", "null", "boolean"}, "array")[t-1]
	}
	doc, _ := inPlace(s, []int{0, 5, 1, 2, 3, 4}[Choice("place", size(1, 6))])
	tryOut(JSON(doc))
}

// likely values make a keyword take effect.
var likely = []struct {
	key   string
	value any
}{
	{"type", "object"}, {"type", "array"}, {"type", "string"}, {"type", "integer"}, {"type", L{"null", "array"}},
	{"properties", M{"a": M{"type": "null"}}}, {"additionalProperties", false}, {"additionalProperties", M{"type": "null"}},
	{"patternProperties", M{"^a$": M{"type": "null"}}}, {"minProperties", 2}, {"maxProperties", 0}, {"required", L{"b"}},
	{"pattern", "^ab?$"}, {"format", "date"}, {"minLength", 2}, {"maxLength", 0},
	{"minimum", 1}, {"maximum", 0}, {"exclusiveMinimum", 0}, {"exclusiveMaximum", 0}, {"multipleOf", 3},
	{"items", M{"type": "null"}}, {"items", false}, {"items", L{M{"type": "null"}}}, {"minItems", 1}, {"maxItems", 0},
	{"contains", M{"type": "null"}}, {"minContains", 2}, {"maxContains", 1}, {"prefixItems", L{M{"type": "null"}, M{"const": 1}}},
	{"additionalItems", false}, {"unevaluatedItems", false}, {"uniqueItems", true},
	{"enum", L{nil, 1}}, {"const", 1}, {"const", nil}, {"not", M{"type": "string"}}, {"not", M{}}, {"allOf", L{M{"type": "null"}, M{"minimum": 2}}},
	{"anyOf", L{M{"type": "null"}, M{"minimum": 2}}}, {"oneOf", L{M{"type": "null"}, M{"type": "null"}}},
	{"if", M{"type": "null"}}, {"then", M{"const": nil}}, {"else", M{"const": 1}}, {"$ref", "#"}, {"$ref", "#/properties/a"}, {"$ref", "#/nothing"},
	{"$id", "http://a.test/x"}, {"$defs", M{"a": M{"$ref": "#/$defs/a"}}},
}

// H_P25_pairs: any two keywords together.
func H_P25_pairs() {
	i, j := Choice("keyword", len(likely)), Choice("other keyword", len(likely))
	if likely[i].key >= likely[j].key {
		return
	}
	s := M{likely[i].key: likely[i].value, likely[j].key: likely[j].value}
	if Thorough() {
		if k := Choice("third keyword", len(likely)); likely[k].key > likely[j].key {
			s[likely[k].key] = likely[k].value
		}
	}
	tryOut(JSON(s))
}

// H_P25_nesting: sub-schemas inside of each other.
func H_P25_nesting() {
	wrap := []func(x any) M{
		func(x any) M { return M{"not": x} },
		func(x any) M { return M{"allOf": L{x, M{"type": L{"integer", "null"}}}} },
		func(x any) M { return M{"anyOf": L{x}} },
		func(x any) M { return M{"oneOf": L{x, M{"type": "null"}}} },
		func(x any) M { return M{"if": x, "then": M{"const": 1}, "type": "null"} },
		func(x any) M { return M{"if": M{"type": "null"}, "then": x, "else": x, "type": "null"} },
		func(x any) M { return M{"properties": M{"a": x}, "required": L{"a"}} },
		func(x any) M { return M{"items": x, "minItems": 1} },
		func(x any) M { return M{"contains": x, "maxItems": 2} },
		func(x any) M { return M{"prefixItems": L{x}, "uniqueItems": true} },
		func(x any) M { return M{"additionalProperties": x, "minProperties": 1} },
		func(x any) M { return M{"patternProperties": M{"^b$": x}} },
		func(x any) M { return M{"$defs": M{"a": x}, "$ref": "#/$defs/a"} },
	}
	inner := []any{M{"type": "null"}, M{"$ref": "#"}, M{"$ref": "#/not"}, M{"minimum": 3, "maximum": 1}, M{"enum": L{}}, M{}, false, M{"type": "integer", "multipleOf": 0}, M{"required": L{"a"}}}
	s := inner[Choice("inner", size(5, len(inner)))]
	for i := 0; i < size(2, 3); i++ {
		s = wrap[Choice("around", len(wrap))](s)
	}
	tryOut(JSON(s))
}

// H_P25_broken: values are generated next to whatever was wrong with the schema.
func H_P25_broken() {
	broken := []M{
		{"type": "integer", "minimum": 2, "maximum": 1}, {"type": "string", "minLength": 2, "maxLength": 1}, {"type": "string", "pattern": "("}, {"type": "string", "pattern": "a", "format": "date"},
		{"type": "array", "minItems": 2, "maxItems": 1}, {"type": "object", "minProperties": 2, "maxProperties": 1}, {"enum": L{}}, {"enum": L{1}, "type": "string"}, {"const": 1, "type": "null"},
		{"type": "nothing"}, {"$ref": "#/nothing"}, {"allOf": L{M{"type": "string"}, M{"type": "null"}}}, {"oneOf": L{M{"type": "nothing"}}}, {"type": "null", "not": M{"type": "nothing"}},
		{"type": "null", "if": M{"type": "nothing"}, "then": M{"const": 1}}, {"type": L{}},
	}
	in := broken[Choice("broken", len(broken))]
	if at := Choice("place", places+1); at < places {
		tryOut(JSON(put(in, at)))
		return
	}
	t, ok := in["type"].(string)
	if !ok {
		return
	}
	s := M{}
	for k, v := range in {
		s[k] = v
	}
	s["type"] = []any{L{t}, L{t, "null"}, L{"null", t}, L{t, t}, L{"boolean", "nothing", t}}[Choice("types", 5)]
	tryOut(JSON(put(s, Choice("place of the list", 3))))
}

// H_P25_references: reference texts of every form.
func H_P25_references() {
	ref := append([]byte("#"), Text("reference", size(2, 4), "/a~0%#")...)
	if Bool("whole?") {
		ref = ref[1:]
	}
	doc := append([]byte(`{"$defs":{"a":{"type":"null","properties":{"":{}}},"":{"const":1}},`), []string{`"$ref":"`, `"allOf":[{"$ref":"`, `"not":{"$ref":"`}[0]...)
	end := `"}`
	switch Choice("place", 3) {
	case 1:
		doc = append(doc[:len(doc)-len(`"$ref":"`)], `"allOf":[{"$ref":"`...)
		end = `"}]}`
	case 2:
		doc = append(doc[:len(doc)-len(`"$ref":"`)], `"type":"null","not":{"$ref":"`...)
		end = `"}}`
	}
	tryOut(append(append(doc, ref...), end...))
}

// H_P25_bytes: documents that are hardly JSON.
func H_P25_bytes() {
	head := []string{``, `{`, `{"not":`, `{"items":[`, `{"type":`, `{"const":`}[Choice("head", 6)]
	doc := append([]byte(head), Text("text", size(3, 5), "{}[]:,\"1tn-e")...)
	end := strings.Repeat("}", Choice("closed", 2))
	if strings.HasSuffix(head, "[") {
		end = "]" + end
	}
	tryOut(append(doc, end...))
}

// H_P25_limits: limits of any size.
func H_P25_limits() {
	pairs := [][3]string{{"string", "minLength", "maxLength"}, {"array", "minItems", "maxItems"}, {"object", "minProperties", "maxProperties"}, {"array", "minContains", "maxContains"}}
	p := pairs[Choice("limits", len(pairs))]
	s := M{"type": p[0]}
	if p[1] == "minContains" {
		s["contains"] = M{"const": 1}
	}
	switch Choice("present", 3) {
	case 0:
		s[p[1]] = Int("least", -5, 5)
	case 1:
		s[p[2]] = Int("most", -5, 5)
	case 2:
		s[p[1]] = Int("least", -3, 5)
		s[p[2]] = Int("most", -3, 5)
	}
	switch Choice("beside", 5) {
	case 1:
		s["prefixItems"] = L{M{"const": 1}, M{"const": 2}}
		s["properties"] = M{"a": M{"const": 1}, "b": M{"const": 2}}
	case 2:
		s["items"] = false
		s["additionalProperties"] = false
	case 3:
		s["uniqueItems"] = true
		s["required"] = L{"x", "y"}
	case 4:
		s = M{"allOf": L{s, M{p[1]: 2}}}
	}
	tryOut(JSON(s))
}

// H_P25_numbers: numeric keywords of any size.
func H_P25_numbers() {
	s := M{"type": []string{"integer", "number"}[Choice("type", 2)]}
	vals := []float64{0, 1, -1, 0.5, 1e-9, -1e15, 9007199254740993, 1e100, -1e100, 1e19}
	for _, k := range []string{"minimum", "maximum", "multipleOf"}[Choice("from", 2):] {
		if Bool(k + "?") {
			s[k] = vals[Choice(k, len(vals))]
		}
	}
	tryOut(JSON(s))
}

// H_P25_options: generator options of any size.
func H_P25_options() {
	schemas := []any{
		M{"type": "integer"}, M{"type": "string"}, M{"type": "array", "items": M{"type": "null"}}, M{"type": "object", "additionalProperties": M{"type": "null"}},
		M{"type": "array", "items": M{"type": "boolean"}, "uniqueItems": true}, M{"type": "object", "properties": M{"a": M{"type": "null"}}},
		M{"type": "null", "oneOf": L{M{"type": "null"}, M{"type": "null"}}}, M{"$ref": "#/$defs/a", "$defs": M{"a": M{"anyOf": L{M{"$ref": "#/$defs/a"}}}}},
		M{"type": "null", "not": M{"type": "null"}}, M{"type": "null", "if": M{"type": "null"}, "then": M{"type": "string"}}, M{"type": "string", "pattern": "a+"},
	}
	s := schemas[Choice("schema", len(schemas))]
	g, err := parse(s)
	if err != nil {
		return
	}
	o := opts()
	fields := []*int{&o.DefaultNumberMinimum, &o.DefaultNumberMaximum, &o.DefaultStringMinLength, &o.DefaultStringMaxLength, &o.DefaultArrayMinItems, &o.DefaultArrayMaxItems,
		&o.DefaultObjectMinProperties, &o.DefaultObjectMaxProperties, &o.MaximumReferenceDepth, &o.MaximumUniqueGeneratorAttempts, &o.MaximumIfAttempts, &o.MaximumOneOfAttempts, &o.MaximumGenerationSteps, &o.CutoffGenerationSteps}
	for _, f := range fields {
		*f = 1
	}
	*fields[Choice("option", len(fields))] = Int("value", 0, size(3, 5))
	if Thorough() {
		*fields[Choice("other option", len(fields))] = Int("other value", 0, 5)
	}
	g.Generate(o)
	Expect("finished")
	Cover("finished", true)
}
