package zzverif

// anyOfSchema draws a schema with anyOf and keywords next to it.
func anyOfSchema() M {
	switch Choice("schema", 10) {
	case 0:
		return M{"type": "integer", "minimum": Int("minimum", 0, 8), "anyOf": L{M{"maximum": 3}, M{"multipleOf": 5, "maximum": 10}}}
	case 1:
		return M{"type": "string", "anyOf": L{M{"type": "integer"}, M{"maxLength": 3}}}
	case 2:
		return M{"type": "object", "properties": M{"a": M{"type": "boolean"}, "b": M{"const": 1}}, "anyOf": L{M{"required": L{"a"}}, M{"required": L{"b"}}}, "additionalProperties": false}
	case 3:
		return M{"enum": L{1, 2, 3, "x"}, "anyOf": L{M{"type": "string"}, M{"minimum": 3}}}
	case 4:
		return M{"type": "array", "items": M{"type": "integer", "minimum": 0, "maximum": 9}, "maxItems": 2, "anyOf": L{M{"items": M{"maximum": 3}}, M{"minItems": 2}}}
	case 5:
		return M{"anyOf": L{M{"type": "boolean"}, M{"const": nil}, M{"enum": L{5, 6}}}}
	case 6:
		return M{"maximum": 4, "anyOf": L{M{"type": "integer", "minimum": 2}, M{"type": "integer", "minimum": 3}}}
	case 7:
		return M{"type": "integer", "minimum": 0, "maximum": 20, "anyOf": L{M{"anyOf": L{M{"maximum": 2}, M{"minimum": 18}}}, M{"const": 10}}}
	case 8:
		return M{"type": "integer", "minimum": 0, "maximum": 12, "anyOf": L{M{"maximum": 3}, M{"minimum": 9}}, "oneOf": L{M{"multipleOf": 2}, M{"multipleOf": 3}}}
	}
	return M{"type": "object", "properties": M{"p": M{"anyOf": L{M{"type": "null"}, M{"type": "integer", "minimum": 1, "maximum": 2}}}}, "required": L{"p"}, "additionalProperties": false}
}

// H_P13_anyof: at least one branch and the surroundings hold.
func H_P13_anyof() {
	s := anyOfSchema()
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts = 2
	v := g.Generate(o)
	if failed(v, "oneOf", 2) {
		return
	}
	if l, ok := s["anyOf"].(L); ok {
		Check("some-branch", matches(s, l, v) > 0, "a value matches no branch of anyOf")
	}
	Check("surroundings", Valid(s, s, v), "a value violates the keywords next to anyOf")
}

// H_P13_accepted: schemas that can be satisfied are accepted.
func H_P13_accepted() {
	var s M
	switch Choice("schema", 4) {
	case 0:
		s = M{"type": "integer", "minimum": 5, "anyOf": L{M{"maximum": 9}, M{"maximum": 3}}}
	case 1:
		s = M{"type": "string", "anyOf": L{M{"minLength": 3}, M{"maxLength": 1}}}
	case 2:
		s = M{"anyOf": L{M{"type": "string"}, M{"type": "null"}}}
	case 3:
		s = M{"type": L{"string", "null"}, "anyOf": L{M{"type": "null"}, M{"type": "string"}}}
	}
	g, err := parse(s)
	Check("usable", err == nil, "a satisfiable anyOf is rejected")
	if err != nil {
		return
	}
	v := g.Generate(opts())
	Check("valid", Valid(s, s, v) || g.Metadata.Errors.HasErrors(), "a value violates its anyOf schema")
}

// H_P13_reach: every branch can be chosen.
func H_P13_reach() {
	n := 2 + Choice("branches", 3)
	l := L{}
	for i := 0; i < n; i++ {
		l = append(l, M{"const": i})
	}
	s := M{"anyOf": l}
	nextTo := Choice("next to", 6)
	switch nextTo {
	case 0:
		s["type"] = "integer"
	case 1: // a further anyOf that allows all of it
		s["allOf"] = L{M{"anyOf": L{M{"type": "integer"}, M{"minimum": -1}}}}
	case 2:
		s = M{"allOf": L{M{"anyOf": L{M{"type": "integer"}, M{"maximum": 9}}}, M{"anyOf": l}}}
	case 5:
		s = M{"allOf": L{M{"anyOf": l}, M{"anyOf": L{M{"type": "integer"}, M{"maximum": 9}}}}}
	case 3: // a branch that is a choice itself
		s = M{"anyOf": L{M{"type": "integer", "anyOf": l}}}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v, isNum := asNum(g.Generate(opts()))
	Check("number", isNum, "no branch value generated")
	for i := 0; i < n; i++ {
		lab := "branch " + digits(i) + " of " + digits(n) + " (" + digits(nextTo) + ")"
		Expect(lab)
		Cover(lab, v == float64(i))
	}
}
