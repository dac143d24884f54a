package zzverif

// badOrGood is a schema and whether some value satisfies it.
func badOrGood() (M, bool) {
	switch Choice("sub-schema", 12) {
	case 0:
		a, b := Int("a", -3, 3), Int("b", -3, 3)
		return M{"type": "integer", "minimum": a, "maximum": b}, a <= b
	case 1:
		a, b := Int("a", -3, 3), Int("b", -3, 3)
		return M{"type": "number", "exclusiveMinimum": a, "exclusiveMaximum": b}, a < b
	case 2:
		a, b := Int("a", 0, 5), Int("b", 0, 5)
		return M{"type": "string", "minLength": a, "maxLength": b}, a <= b
	case 3:
		a, b := Int("a", 0, 4), Int("b", 0, 4)
		return M{"type": "array", "items": M{"type": "null"}, "minItems": a, "maxItems": b}, a <= b
	case 4:
		a, b := Int("a", 0, 4), Int("b", 0, 4)
		return M{"type": "object", "additionalProperties": M{"type": "null"}, "minProperties": a, "maxProperties": b}, a <= b
	case 5:
		a := Int("a", 0, 3)
		return M{"enum": L{0, 1}, "minimum": a}, a <= 1
	case 6:
		if Bool("good?") {
			return M{"const": "x", "type": "string"}, true
		}
		return M{"const": "x", "type": "integer"}, false
	case 7:
		if Bool("good?") {
			return M{"allOf": L{M{"type": L{"string", "null"}}, M{"type": L{"integer", "null"}}}}, true
		}
		return M{"allOf": L{M{"type": "string"}, M{"type": "integer"}}}, false
	case 8:
		if Bool("good?") {
			return M{"type": "null"}, true
		}
		return M{"type": "nil"}, false
	case 9:
		a := Int("a", 1, 4)
		return M{"type": "integer", "minimum": 5, "maximum": 7, "multipleOf": a}, a <= 3
	case 10:
		if Bool("good?") {
			return M{"type": "string", "pattern": "^a{1,2}$"}, true
		}
		return M{"type": "string", "pattern": "^a{2,1}$"}, false
	}
	a, b := Int("a", 0, 5), Int("b", 0, 5)
	return M{"allOf": L{M{"type": "integer", "minimum": a}, M{"maximum": b}}}, a <= b
}

const places = 16

// put places a schema inside of another one.
func put(in any, where int) any {
	switch where {
	case 0:
		return M{"type": "object", "properties": M{"p": in}, "additionalProperties": false}
	case 1:
		return M{"type": "object", "properties": M{"p": in}, "required": L{"p"}, "additionalProperties": false}
	case 2:
		return M{"type": "array", "items": in, "maxItems": 2}
	case 3:
		return M{"type": "array", "prefixItems": L{M{"type": "null"}, in}}
	case 4:
		return M{"type": "array", "items": L{in}}
	case 5:
		return M{"type": "array", "contains": in, "maxItems": 3}
	case 6:
		return M{"type": "object", "additionalProperties": in}
	case 7:
		return M{"allOf": L{M{}, in}}
	case 8:
		return M{"anyOf": L{in, M{"type": "boolean"}}}
	case 9:
		return M{"oneOf": L{M{"type": "boolean"}, in}}
	case 10:
		return M{"if": M{"const": true}, "then": in}
	case 11:
		return M{"if": M{"const": true}, "then": M{"const": true}, "else": in}
	case 12:
		return M{"$defs": M{"d": in}, "type": "null"}
	case 13:
		return M{"definitions": M{"d": in}, "type": "null"}
	case 14:
		return M{"type": "object", "patternProperties": M{"^a$": in}, "additionalProperties": false}
	}
	return in
}

// report parses and compares what is reported with what is expected.
func report(s any, good bool) {
	g, err := parse(s)
	if good {
		text := ""
		if err != nil {
			text = err.Error()
		} else {
			for p, e := range g.Metadata.Errors.CollectErrors() {
				text += p + ": " + e.Error() + "; "
			}
		}
		Check("nothing-reported", clean(g, err), "a problem is reported although every sub-schema can be satisfied: "+text)
		return
	}
	Check("reported", !clean(g, err), "a contradictory sub-schema is not reported")
	if err == nil && g.Metadata.Errors != nil {
		Check("collected", g.Metadata.Errors.HasErrors() == (len(g.Metadata.Errors.CollectErrors()) > 0), "the recorded errors are not collected")
	}
}

// H_P26_places: a sub-schema that may be contradictory at every place.
func H_P26_places() {
	in, good := badOrGood()
	report(put(in, Choice("place", places)), good)
}

// H_P26_nested: two levels of sub-schemas.
func H_P26_nested() {
	a := Int("a", 0, 3)
	in := []M{{"type": "integer", "minimum": a, "maximum": 1}, {"enum": L{"x", 1}, "type": "integer", "minimum": a}, {"type": "string", "minLength": a, "maxLength": 1}}[Choice("sub-schema", size(2, 3))]
	inner := Choice("inner place", places)
	if inner == 12 || inner == 13 {
		return // definitions of the root count
	}
	report(put(put(in, inner), Choice("outer place", places)), a <= 1)
}

// H_P26_types: contradictory keywords for one type of a list.
func H_P26_types() {
	a, b := Int("a", 0, 4), Int("b", 0, 4)
	l := []L{{"integer", "null"}, {"null", "string"}, {"array", "boolean"}, {"object", "null"}, {"number", "string"}, {"integer", "string", "array"}}
	t := l[Choice("types", len(l))]
	s := M{"type": t}
	kind := Choice("keywords", 4)
	lo := []string{"minimum", "minLength", "minItems", "minProperties"}[kind]
	hi := []string{"maximum", "maxLength", "maxItems", "maxProperties"}[kind]
	s[lo], s[hi] = a, b
	of := [][]string{{"integer", "number"}, {"string"}, {"array"}, {"object"}}[kind]
	hit := false
	for _, x := range t {
		for _, y := range of {
			hit = hit || x == y
		}
	}
	if kind == 2 {
		s["items"] = M{"type": "null"}
	}
	if kind == 3 {
		s["additionalProperties"] = M{"type": "null"}
	}
	report(put(s, []int{0, 2, 8, places - 1}[Choice("place", 4)]), !hit || a <= b)
}

// H_P26_several: each of several problems is enough.
func H_P26_several() {
	a, b := Int("a", 0, 3), Int("b", 0, 3)
	x := M{"type": "integer", "minimum": a, "maximum": 1}
	y := M{"type": "string", "minLength": b, "maxLength": 2}
	var s M
	switch Choice("place", 5) {
	case 0:
		s = M{"type": "object", "properties": M{"x": x, "y": y}}
	case 1:
		s = M{"type": "array", "prefixItems": L{x, y}}
	case 2:
		s = M{"anyOf": L{x, y}}
	case 3:
		s = M{"oneOf": L{x, y}}
	case 4:
		s = M{"type": "array", "items": x, "contains": M{"type": "integer"}, "$defs": M{"y": y}, "maxItems": 2}
	}
	report(s, a <= 1 && b <= 2)
}

// H_P26_deep: a sub-schema that may be contradictory many levels down.
func H_P26_deep() {
	where := Choice("place", places)
	if where == 12 || where == 13 {
		return // definitions of the root count
	}
	a := Int("a", 0, 3)
	var s any = M{"type": "integer", "minimum": a, "maximum": 1}
	levels := L{5, 9, 12}[Choice("levels", 3)].(int)
	if where >= 7 && where <= 11 {
		levels = 4
	}
	for i := 0; i < levels; i++ {
		s = put(s, where)
	}
	report(s, a <= 1)
}
