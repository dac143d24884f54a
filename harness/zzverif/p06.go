package zzverif

// leaf draws one of several property schemas.
func leaf(name string, lo, hi int) any {
	switch Choice(name, 6) {
	case 0:
		a := Int(name+".minimum", lo, hi)
		return M{"type": "integer", "minimum": a, "maximum": a + 3}
	case 1:
		return M{"type": "boolean"}
	case 2:
		return M{"type": "string", "minLength": 3, "maxLength": 5}
	case 3:
		return M{"enum": L{"p", 7, nil}}
	case 4:
		return M{"const": false}
	}
	return M{"type": "array", "items": M{"type": "integer", "minimum": lo, "maximum": hi}, "maxItems": 2}
}

// checkObject judges the parts of an object P06 speaks about.
func checkObject(s M, v any) {
	o, ok := v.(map[string]any)
	Check("object", ok, "no object generated")
	if !ok {
		return
	}
	if req, ok := s["required"].(L); ok {
		for _, k := range req {
			_, has := o[k.(string)]
			Check("required-present", has, "a required key is missing")
		}
	}
	props, _ := s["properties"].(M)
	for k, p := range props {
		if x, has := o[k]; has {
			Check("declared-value", Valid(s, p, x), "the value of a declared property violates its schema")
		}
	}
}

// H_P06_values: two declared properties of varying kind, any required subset,
// one more required key that is not declared.
func H_P06_values() {
	s := M{"type": "object", "properties": M{"a": leaf("a", -3, 3), "b": leaf("b", 10, 12)}}
	req := L{}
	if Bool("a required?") {
		req = append(req, "a")
	}
	if Bool("b required?") {
		req = append(req, "b")
	}
	if Bool("undeclared required?") {
		req = append(req, "zz")
	}
	if len(req) > 0 {
		s["required"] = req
	}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a plain object schema is rejected")
	if !ok {
		return
	}
	checkObject(s, generated(g, opts()))
}

// H_P06_clash: generated extra names that coincide with declared ones.
func H_P06_clash() {
	s := M{"type": "object"}
	switch Choice("extra", 3) {
	case 0:
		s["properties"] = M{"additional_0": M{"type": "integer"}, "additional_1": M{"type": "boolean"}}
		s["additionalProperties"] = M{"type": "string"}
	case 1:
		s["properties"] = M{"aa": M{"type": "integer"}, "ab": M{"const": "c"}}
		s["patternProperties"] = M{"^a[ab]$": M{"type": "string"}}
	case 2:
		s["properties"] = M{"min_filler_0": M{"type": "integer"}, "min_filler_1": M{"type": "boolean"}}
	}
	if Bool("required?") {
		l := L{}
		for k := range s["properties"].(M) {
			l = append(l, k)
		}
		s["required"] = l[:1]
	}
	if Bool("minProperties?") {
		s["minProperties"] = Int("minProperties", 0, 3)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	checkObject(s, generated(g, opts()))
}

// H_P06_nested: objects within objects and arrays.
func H_P06_nested() {
	in := M{"type": "object", "properties": M{"x": leaf("x", 0, 2)}, "required": L{"x"}}
	var mid any = in
	if Bool("in array?") {
		mid = M{"type": "array", "items": in, "minItems": 1, "maxItems": 2}
	}
	s := M{"type": "object", "properties": M{"m": mid, "n": M{"type": "null"}}, "required": L{"m"}}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a plain object schema is rejected")
	if !ok {
		return
	}
	checkObject(s, generated(g, opts()))
}

// H_P06_minimised: required keys survive the minimise threshold.
func H_P06_minimised() {
	s := M{"type": "object", "properties": M{"a": M{"type": "integer"}, "b": M{"type": "boolean"}}, "required": L{"a"}}
	g, err := parse(M{"type": "array", "minItems": 3, "maxItems": 3, "items": s})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumGenerationSteps = Int("MaximumGenerationSteps", 1, 5)
	l, _ := g.Generate(o).([]any)
	Check("items", len(l) == 3, "items missing")
	for _, x := range l {
		checkObject(s, x)
	}
}

// H_P06_many: up to six declared properties.
func H_P06_many() {
	names := []string{"p", "q", "r", "s"}
	props := M{}
	req := L{}
	for i, n := range names {
		props[n] = M{"const": i}
	}
	k := Choice("required", 5)
	for i := 0; i < k; i++ {
		req = append(req, names[i])
	}
	s := M{"type": "object", "properties": props, "required": req}
	if Bool("maxProperties?") {
		s["maxProperties"] = Int("maxProperties", 0, 6)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	checkObject(s, generated(g, opts()))
}

// H_P06_patterns: declared and required properties that match patterns too.
func H_P06_patterns() {
	a := Int("a", 0, 5)
	pats := M{"^p": M{"minimum": a}}
	if Bool("second pattern?") {
		pats["q$"] = M{"type": "integer", "maximum": Int("b", 0, 5)}
	}
	s := M{"type": "object", "patternProperties": pats}
	switch Choice("declared", 3) {
	case 0:
		s["properties"] = M{"pq": M{"type": "integer", "maximum": 4}}
	case 1:
		s["properties"] = M{"pq": M{"type": "integer", "minimum": 2, "maximum": 5}, "r": M{"const": "r"}}
	}
	if Bool("required?") {
		s["required"] = L{"pq"}
	}
	if Bool("closed?") {
		s["additionalProperties"] = false
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties = 1
	v := generated(g, o)
	checkObject(s, v)
	x, has := v.(map[string]any)["pq"]
	if !has {
		return
	}
	for re, p := range pats {
		Check("pattern-value", Valid(s, p, x), "the value of a property violates the schema of the pattern "+re)
	}
}
