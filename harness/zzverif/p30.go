package zzverif

// keyword draws a schema of one keyword (or of keywords that work together) with
// symbolic limits, and a value of the type it judges.
func keyword(nested bool) (M, any) {
	n := 24
	if nested {
		n = 30
	}
	switch Choice("keyword", n) {
	case 0:
		return M{"type": someType("type")}, listed("value")
	case 1:
		if Bool("all but one?") {
			l, but := L{}, someType("type")
			for _, t := range []string{"string", "integer", "null", "boolean", "array", "object", "number"} {
				if t != but {
					l = append(l, t)
				}
			}
			return M{"type": l}, listed("value")
		}
		return M{"type": L{someType("type"), "string"}[:1+Choice("types", 2)]}, listed("value")
	case 2:
		return M{"minimum": Int("limit", -3, 3)}, Int("value", -4, 4)
	case 3:
		return M{"maximum": Int("limit", -3, 3)}, Int("value", -4, 4)
	case 4:
		return M{"exclusiveMinimum": Int("limit", -3, 3)}, Int("value", -4, 4)
	case 5:
		return M{"exclusiveMaximum": Int("limit", -3, 3)}, Int("value", -4, 4)
	case 6:
		return M{"multipleOf": []float64{0.5, 1, 1.5, 2, 2.5, 3}[Choice("step", 6)]}, Int("value", 0, 6)
	case 7:
		return M{"minLength": Int("limit", 0, 3)}, someText("value")
	case 8:
		return M{"maxLength": Int("limit", 0, 3)}, someText("value")
	case 9:
		return M{"pattern": "^[ab]*$"}, someText("value")
	case 10:
		return M{"format": L{"ipv4", "date", "unheard-of"}[Choice("format", 3)]}, L{"1.2.3.4", "2020-02-29", "x"}[Choice("value", 3)]
	case 11:
		return M{"items": M{"minimum": Int("limit", -2, 2)}}, someList("value")
	case 12:
		return M{"items": false}, someList("value")
	case 13:
		s := M{"items": L{M{"minimum": Int("limit", -2, 2)}, M{"type": "string"}}}
		switch Choice("further", 5) {
		case 4:
			s["additionalItems"] = M{}
		case 1:
			s["additionalItems"] = false
		case 2:
			s["additionalItems"] = M{"type": "null"}
		case 3:
			s["additionalItems"] = true
		}
		return s, someList("value")
	case 14:
		s := M{"prefixItems": L{M{"minimum": Int("limit", -2, 2)}}}
		switch Choice("further", 4) {
		case 3:
			s["items"] = M{}
		case 1:
			s["items"] = false
		case 2:
			s["items"] = M{"type": "string"}
		}
		return s, someList("value")
	case 15:
		s := M{"contains": M{"type": "string"}}
		switch Choice("how many", 4) {
		case 1:
			s["minContains"] = Int("limit", 0, 3)
		case 2:
			s["maxContains"] = Int("limit", 0, 2)
			s["minContains"] = 0
		case 3:
			s["minContains"] = 0
		}
		return s, someList("value")
	case 16:
		return M{L{"minItems", "maxItems"}[Choice("which", 2)].(string): Int("limit", 0, 3)}, someList("value")
	case 17:
		return M{"uniqueItems": Bool("unique")}, someList("value")
	case 18:
		return M{"properties": M{"a": M{"minimum": Int("limit", -2, 2)}, "c": M{"type": "string"}}}, someObject("value")
	case 19:
		s := M{"patternProperties": M{"^a": M{"minimum": Int("limit", -2, 2)}}}
		if Bool("closed?") {
			s["additionalProperties"] = false
		}
		return s, someObject("value")
	case 20:
		s := M{"properties": M{"a": M{}}}
		switch Choice("further", 4) {
		case 3:
			s["additionalProperties"] = M{}
		case 0:
			s["additionalProperties"] = false
		case 1:
			s["additionalProperties"] = M{"type": "string"}
		case 2:
			s["additionalProperties"] = true
		}
		return s, someObject("value")
	case 21:
		return M{"required": L{"a", "b"}[:Choice("names", 3)]}, someObject("value")
	case 22:
		return M{L{"minProperties", "maxProperties"}[Choice("which", 2)].(string): Int("limit", 0, 3)}, someObject("value")
	case 23:
		return M{"properties": M{"a": M{"properties": M{"k": M{"const": listed("inner")}}}}}, M{"a": M{"k": listed("value")}}
	case 24:
		return M{"not": M{"minimum": Int("limit", -2, 2)}}, Int("value", -3, 3)
	case 25:
		return M{"anyOf": L{M{"minimum": Int("limit", -2, 2)}, M{"maximum": Int("upper", -2, 2)}}}, Int("value", -3, 3)
	case 26:
		return M{"oneOf": L{M{"minimum": Int("limit", -2, 2)}, M{"maximum": Int("upper", -2, 2)}}}, Int("value", -3, 3)
	case 27:
		return M{"if": M{"minimum": Int("limit", -2, 2)}, "then": M{"maximum": Int("upper", -2, 2)}, "else": M{"multipleOf": 2}}, Int("value", -3, 3)
	case 28:
		return M{"enum": L{listed("first"), listed("second")}}, listed("value")
	}
	return M{"const": listed("constant")}, listed("value")
}

func someType(name string) string {
	return []string{"string", "integer", "null", "boolean", "array", "object", "number"}[Choice(name, 7)]
}

func someText(name string) string {
	return []string{"", "a", "é", "abc", "ab"}[Choice(name, 5)]
}

func someList(name string) any {
	return []any{L{}, L{1}, L{Int(name+" element", -3, 3), "x"}, L{2, 2}, L{"x", "x"}, L{0, "x", nil}}[Choice(name, 6)]
}

func someObject(name string) any {
	return []any{M{}, M{"a": Int(name+" member", -3, 3)}, M{"b": "x"}, M{"a": 0, "b": 1}, M{"c": "x", "ab": 2, "d": nil}}[Choice(name, 5)]
}

// within puts schema and value at the same place of a larger schema and value.
func within(s M, v any, where int) (M, any) {
	switch where {
	case 1:
		return M{"properties": M{"p": s}}, M{"p": v, "q": 1}
	case 2:
		return M{"items": s}, L{v}
	case 3:
		return M{"prefixItems": L{M{}, s}}, L{1, v}
	case 4:
		return M{"additionalProperties": s}, M{"p": v}
	case 5:
		return M{"patternProperties": M{"^p": s}}, M{"pp": v}
	case 6:
		return M{"contains": s}, L{v}
	case 7:
		return M{"items": L{s}, "additionalItems": false}, L{v}
	}
	return s, v
}

// allows checks that exactly the listed value that satisfies the schema is
// accepted: listed values are judged by the schema that was written out again.
func allows(doc M, v any) {
	g, err := parse(doc)
	ok := clean(g, err)
	if Valid(doc, doc, v) {
		Check("kept", ok, "a value that satisfies the schema is refused once the schema has been written out again")
		return
	}
	Check("tight", !ok, "a value that violates the schema is accepted once the schema has been written out again")
}

// H_P30_listed: next to enum or const the other keywords are written out for
// the validator.
func H_P30_listed() {
	k, v := keyword(false)
	s, w := within(k, v, Choice("place", size(2, 8)))
	if _, taken := s["const"]; !taken && Bool("const?") {
		s["const"] = w
	} else {
		s["enum"] = L{w}
	}
	allows(s, w)
}

// H_P30_nested: the same at every place, for all keywords.
func H_P30_nested() {
	k, v := keyword(true)
	s, w := within(k, v, 1+Choice("place", 7))
	s["enum"] = L{w}
	allows(s, w)
}

// H_P30_inlined: a reference next to other keywords is replaced by the schema
// it designates.
func H_P30_inlined() {
	k, v := keyword(false)
	s, w := within(k, v, Choice("place", size(2, 8)))
	doc := M{"$defs": M{"d": s}, "allOf": L{M{"$ref": "#/$defs/d"}}, "enum": L{w}}
	allows(doc, w)
}

// H_P30_chained: references inside of what is inlined keep their meaning.
func H_P30_chained() {
	limit, v := Int("limit", -2, 2), Int("value", -3, 3)
	s, w := within(M{"$ref": "#/$defs/n"}, v, 1+Choice("place", 7))
	doc := M{"$defs": M{"d": s, "n": M{"maximum": limit}}, "enum": L{w}}
	switch Choice("how", 4) {
	case 0:
		doc["allOf"] = L{M{"$ref": "#/$defs/d"}}
	case 1:
		doc["allOf"] = L{M{"$ref": "#/$defs/e"}}
		doc["$defs"].(M)["e"] = M{"$ref": "#/$defs/d"}
	case 2:
		doc["allOf"] = L{M{"$ref": "#/$defs/e"}}
		doc["$defs"].(M)["e"] = M{"allOf": L{M{"$ref": "#/$defs/d"}}}
	case 3:
		for k, x := range s {
			doc[k] = x
		}
	}
	allows(doc, w)
}

// H_P30_data: what looks like a keyword inside of a listed value, or is the
// name of a property, stays what it is.
func H_P30_data() {
	name := []string{"$ref", "$id", "items", "const", "enum", "$defs", "properties"}[Choice("name", 7)]
	var inner any
	switch Choice("inner", 4) {
	case 0:
		inner = "#/nowhere"
	case 1:
		inner = L{1, 2}
	case 2:
		inner = M{"$ref": "elsewhere"}
	case 3:
		inner = Int("number", -2, 2)
	}
	w := M{name: inner}
	limit := Int("limit", -2, 2)
	switch Choice("shape", 6) {
	case 5:
		data := M{"const": w}
		if Bool("enum?") {
			data = M{"enum": L{w}}
		}
		s, v := within(data, w, 1+Choice("place", 7))
		s["enum"] = L{v}
		allows(s, v)
	case 0:
		allows(M{"const": w}, w)
	case 1:
		allows(M{"enum": L{w}, "required": L{name}}, w)
	case 2:
		allows(M{"enum": L{w}, "properties": M{name: M{"minimum": limit}, "other": M{"$ref": "#/$defs/n"}}, "$defs": M{"n": M{"maximum": limit}}}, w)
	case 3:
		allows(M{"$defs": M{"d": M{"properties": M{name: M{"$ref": "#/$defs/n"}}}, "n": M{"maximum": limit}}, "allOf": L{M{"$ref": "#/$defs/d"}}, "enum": L{w}}, w)
	case 4:
		allows(M{"$defs": M{"d": M{"const": w}}, "allOf": L{M{"$ref": "#/$defs/d"}}}, w)
	}
}
