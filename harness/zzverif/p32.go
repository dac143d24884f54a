package zzverif

// unevaluatedCase builds what accounts for elements besides unevaluatedItems,
// and tells how many leading elements there are.
func unevaluatedPrefix(s M) int {
	n := Choice("prefix", 3)
	if n > 0 {
		s["prefixItems"] = prefixSchemas(n)
	}
	return n
}

// checkUnevaluated judges an array as a whole.
func checkUnevaluated(s M, v any) {
	l, ok := v.([]any)
	Check("array", ok, "no array generated")
	if ok {
		Check("valid", Valid(s, s, l), "the array holds an element that nothing allows, or too few")
	}
}

// H_P32_false: no element beyond the leading ones, whatever the limits and defaults.
func H_P32_false() {
	s := M{"type": "array", "unevaluatedItems": false}
	n := unevaluatedPrefix(s)
	min, max := itemLimits(s, 0, 4)
	g, err := parse(s)
	ok := clean(g, err)
	if min > max || min > n {
		Check("contradictory-rejected", !ok, "more elements are demanded than may follow")
		return
	}
	if n > max {
		return
	}
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMinItems = Int("DefaultArrayMinItems", 0, 3)
	o.DefaultArrayMaxItems = Int("DefaultArrayMaxItems", 0, 5)
	checkUnevaluated(s, generated(g, o))
}

// H_P32_contains: elements that match contains are accounted for, others are not.
func H_P32_contains() {
	con := any(M{"const": "k"})
	if Bool("range?") {
		con = M{"type": "integer", "minimum": 4, "maximum": 6}
	}
	s := M{"type": "array", "unevaluatedItems": false, "contains": con}
	n := unevaluatedPrefix(s)
	need := 1
	if Bool("minContains?") {
		need = Int("minContains", 0, 2)
		s["minContains"] = need
	}
	most := 1 << 30
	if Bool("maxContains?") {
		most = Int("maxContains", 0, 3)
		s["maxContains"] = most
	}
	min := 0
	if Bool("minItems?") {
		min = Int("minItems", 0, 4)
		s["minItems"] = min
	}
	g, err := parse(s)
	ok := clean(g, err)
	if need > most || min > n+most {
		Check("contradictory-rejected", !ok, "more elements are demanded than may follow")
		return
	}
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 2
	o.MaximumUniqueGeneratorAttempts = 1
	checkUnevaluated(s, generated(g, o))
}

// H_P32_schema: a schema for what nothing else accounts for.
func H_P32_schema() {
	s := M{"type": "array", "unevaluatedItems": M{"type": "integer", "minimum": 10, "maximum": 12}}
	n := unevaluatedPrefix(s)
	switch Choice("beside", 4) {
	case 0:
		s["contains"] = M{"const": "k"}
		if Bool("none?") {
			s["minContains"] = 0
		}
	case 1:
		s["items"] = M{"const": "i"}
	case 2:
		if n > 0 {
			s["items"] = s["prefixItems"]
			delete(s, "prefixItems")
		}
	}
	if Bool("minItems?") {
		s["minItems"] = Int("minItems", 0, 4)
	}
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 3
	checkUnevaluated(s, generated(g, o))
}

// H_P32_items: items, or additionalItems behind a list, leaves nothing over.
func H_P32_items() {
	un := any(false)
	if Bool("schema?") {
		un = M{"const": "u"}
	}
	s := M{"type": "array", "unevaluatedItems": un}
	closed := false
	n := 0
	switch Choice("items", 6) {
	case 0:
		s["items"] = M{"const": 1}
		n = unevaluatedPrefix(s)
	case 1:
		s["items"] = L{M{"const": 1}}
		s["additionalItems"] = M{"const": 2}
		n = 1
	case 2:
		s["items"] = L{M{"const": 1}}
		s["additionalItems"] = false
		closed, n = true, 1
	case 3:
		s["items"] = L{M{"const": 1}, M{"const": 2}}
		closed, n = un == any(false), 2
	case 4:
		s["items"] = false
		n = unevaluatedPrefix(s)
		closed = true
	case 5:
		s["items"] = M{"type": L{"null", "boolean"}}
	}
	min := 0
	if Bool("minItems?") {
		min = Int("minItems", 0, 4)
		s["minItems"] = min
	}
	g, err := parse(s)
	ok := clean(g, err)
	if closed && min > n {
		Check("contradictory-rejected", !ok, "more elements are demanded than may follow")
		return
	}
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 3
	checkUnevaluated(s, generated(g, o))
}

// H_P32_nested: what the branches and references of a schema account for is left alone.
func H_P32_nested() {
	s := M{"type": "array", "unevaluatedItems": false}
	if Bool("schema?") {
		s["unevaluatedItems"] = M{"const": "u"}
	}
	part := M{"prefixItems": L{M{"const": "a"}, M{"type": "integer", "minimum": 1, "maximum": 2}}}
	if Bool("rest?") {
		part = M{"items": M{"const": "b"}}
	}
	switch Choice("placed", 6) {
	case 0:
		s["allOf"] = L{part}
	case 1:
		s["anyOf"] = L{part}
	case 2:
		s["oneOf"] = L{part, M{"type": "null"}}
	case 3:
		s["$defs"] = M{"p": part}
		s["allOf"] = L{M{"$ref": "#/$defs/p"}}
	case 4:
		s["if"] = M{"minItems": 0}
		s["then"] = part
	case 5:
		s["allOf"] = L{part, M{"minItems": 1}}
		s["prefixItems"] = L{M{"minLength": 1}}
	}
	if Bool("minItems?") {
		s["minItems"] = Int("minItems", 0, 3)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 3
	o.MaximumIfAttempts, o.MaximumOneOfAttempts = 2, 2
	v := generated(g, o)
	if _, ok := v.(string); ok {
		return
	}
	Check("valid", Valid(s, s, v), "the array holds an element that nothing allows, or too few")
}

// H_P32_minimised: nothing is added past the minimise threshold either.
func H_P32_minimised() {
	in := M{"type": "array", "prefixItems": L{M{"const": "a"}}, "unevaluatedItems": false}
	if Bool("contains?") {
		in["contains"] = M{"const": "k"}
		in["minItems"] = Int("minItems", 0, 3)
	}
	g, err := parse(M{"type": "array", "items": in, "minItems": 2, "maxItems": 2})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumGenerationSteps = Int("MaximumGenerationSteps", 1, 4)
	o.DefaultArrayMaxItems = 3
	l, _ := g.Generate(o).([]any)
	for _, x := range l {
		if x != nil {
			checkUnevaluated(in, x)
		}
	}
}

// H_P32_unique: unique elements that nothing else accounts for are no exception.
func H_P32_unique() {
	un := M{"type": "integer", "minimum": 10, "maximum": 13}
	s := M{"type": "array", "unevaluatedItems": un, "uniqueItems": true, "minItems": 2, "maxItems": 3}
	n := unevaluatedPrefix(s)
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1
	l, _ := generated(g, o).([]any)
	Check("length", len(l) >= 2 && len(l) <= 3, "too few or too many elements")
	for i, x := range l {
		if i >= n {
			Check("governed", unable(x) || Valid(un, un, x), "an element violates unevaluatedItems")
		}
	}
}
