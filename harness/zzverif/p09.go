package zzverif

import "strings"

// H_P09_contains: contains with minContains present or absent.
func H_P09_contains() {
	con := any(M{"type": "integer", "minimum": 5, "maximum": 9})
	s := M{"type": "array", "contains": con}
	var items any
	switch Choice("items", 4) {
	case 0:
		items = M{"type": "integer", "minimum": 0, "maximum": 7}
	case 1:
		con = M{"type": "string", "minLength": 2, "maxLength": 4}
		items = M{"type": "string", "maxLength": 3}
		s["contains"] = con
	case 2:
		con = M{"const": 3}
		items = M{"type": "integer", "minimum": 1, "maximum": 4}
		s["contains"] = con
	}
	if items != nil {
		s["items"] = items
	}
	need := 1
	if Bool("minContains?") {
		need = Int("minContains", 0, 3)
		s["minContains"] = need
	}
	if Bool("minItems?") {
		s["minItems"] = Int("minItems", 0, 3)
	}
	max := 1 << 30
	if Bool("maxItems?") {
		max = Int("maxItems", 0, 4)
		s["maxItems"] = max
	}
	g, err := parse(s)
	ok := clean(g, err)
	if need > max {
		Check("contradictory-rejected", !ok, "more matches are demanded than maxItems allows")
		return
	}
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 3
	checkContains(generated(g, o), con, need, items, 0)
}

func checkContains(v any, con any, need int, items any, prefix int) {
	l, ok := v.([]any)
	Check("array", ok, "no array generated")
	if !ok {
		return
	}
	n := 0
	for i, x := range l {
		if Valid(con, con, x) {
			n++
		}
		if items != nil && i >= prefix {
			Check("items", Valid(items, items, x), "an element violates items")
		}
	}
	Check("enough-matches", n >= need, "too few elements match contains")
}

// H_P09_prefix: contains behind a prefix.
func H_P09_prefix() {
	n := 1 + Choice("prefix", 2)
	con := M{"type": "integer", "minimum": 5, "maximum": 9}
	s := M{"type": "array", "contains": con, "prefixItems": prefixSchemas(n)}
	var items any
	if Bool("items?") {
		items = M{"type": "integer", "minimum": 0, "maximum": 7}
		s["items"] = items
	}
	need := 1
	if Bool("minContains?") {
		need = Int("minContains", 1, 3)
		s["minContains"] = need
	}
	if Bool("maxItems?") {
		s["maxItems"] = Int("maxItems", 0, 6)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 4
	checkContains(generated(g, o), con, need, items, n)
}

// H_P09_unmet: contains that items or a closed prefix rule out.
func H_P09_unmet() {
	con := any(M{"type": "integer", "minimum": 5, "maximum": 9})
	s := M{"type": "array", "contains": con}
	var items any
	switch Choice("items", 3) {
	case 0:
		items = M{"type": "string"}
		s["items"] = items
	case 1:
		items = M{"type": "integer", "minimum": Int("minimum", 0, 12), "maximum": 12}
		s["items"] = items
	case 2:
		s["items"] = false
		if Bool("prefix?") {
			s["prefixItems"] = prefixSchemas(2)
		}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 3
	checkContains(generated(g, o), con, 1, items, 0)
}

// H_P09_stray: minContains without contains has no meaning.
func H_P09_stray() {
	s := M{"type": "array", "items": M{"const": 1}, "minContains": Int("minContains", 0, 6), "maxItems": Int("maxItems", 0, 4)}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "minContains without contains is held against the schema")
	if ok {
		v := generated(g, opts())
		Check("valid", Valid(s, s, v), "the array violates its schema")
	}
}

// H_P09_minimised: contains is honoured past the minimise threshold.
func H_P09_minimised() {
	con := M{"const": 3}
	in := M{"type": "array", "contains": con, "minContains": 2, "items": M{"type": "integer", "minimum": 1, "maximum": 4}}
	g, err := parse(M{"type": "array", "items": in, "minItems": 2, "maxItems": 2})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumGenerationSteps = Int("MaximumGenerationSteps", 1, 4)
	o.DefaultArrayMaxItems = 3
	l, _ := g.Generate(o).([]any)
	for _, x := range l {
		checkContains(x, con, 2, in["items"], 0)
	}
}

// unable tells the documented text for an element that could not be found.
func unable(x any) bool {
	t, ok := x.(string)
	return ok && strings.HasPrefix(t, "Warning: Unable to generate")
}

// checkLimited counts matches. The text for what could not be found takes the place of an element.
func checkLimited(v any, con any, need, most int, items any, prefix L) {
	l, ok := v.([]any)
	Check("array", ok, "no array generated")
	if !ok {
		return
	}
	n, texts := 0, 0
	for i, x := range l {
		hit := Valid(con, con, x)
		if hit {
			n++
		}
		if unable(x) {
			if hit {
				texts++
			}
			continue
		}
		if i < len(prefix) {
			Check("prefix", Valid(prefix[i], prefix[i], x), "a leading element violates its schema")
		} else if items != nil {
			Check("items", Valid(items, items, x), "an element violates items")
		}
	}
	Check("enough-matches", n >= need, "too few elements match contains")
	Check("not-too-many-matches", n-texts <= most, "more elements match contains than maxContains allows")
}

// H_P09_limited: between minContains and maxContains elements match, zero included.
func H_P09_limited() {
	con := any(M{"const": 1})
	s := M{"type": "array", "contains": con}
	var items any
	switch Choice("items", 3) {
	case 0:
		items = M{"enum": L{1, 2}}
	case 1:
		con, items = M{"type": "integer", "minimum": 3, "maximum": 5}, M{"type": "integer", "minimum": 2, "maximum": 4}
	case 2:
		con, items = M{"type": "boolean"}, M{"type": L{"boolean", "null"}}
	}
	s["contains"] = con
	if items != nil {
		s["items"] = items
	}
	need := 1
	if Bool("minContains?") {
		need = Int("minContains", 0, 2)
		s["minContains"] = need
	}
	most := Int("maxContains", 0, 2)
	s["maxContains"] = most
	if Bool("minItems?") {
		s["minItems"] = Int("minItems", 0, 3)
	}
	g, err := parse(s)
	ok := clean(g, err)
	if need > most {
		Check("contradictory-rejected", !ok, "minContains > maxContains is accepted")
		return
	}
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 2
	o.MaximumUniqueGeneratorAttempts = 2
	checkLimited(generated(g, o), con, need, most, items, nil)
}

// H_P09_limited_any: without items there is more than one kind of element to choose from.
func H_P09_limited_any() {
	con := M{"type": "null"}
	if Bool("several?") {
		con = M{"type": L{"null", "string", "boolean"}}
	}
	s := M{"type": "array", "contains": con}
	s["minContains"] = Int("minContains", 0, 1)
	most := Int("maxContains", 1, 2)
	s["maxContains"] = most
	s["minItems"] = 2
	s["maxItems"] = 2
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties, o.DefaultArrayMaxItems = 1, 1
	o.MaximumUniqueGeneratorAttempts = 2
	checkLimited(generated(g, o), con, s["minContains"].(int), most, nil, nil)
}

// H_P09_limited_prefix: leading elements count towards the limit.
func H_P09_limited_prefix() {
	con := M{"const": 1}
	prefix := L{M{"enum": L{1, 2}}}
	switch Choice("prefix", 3) {
	case 0:
		prefix = L{M{"const": 1}}
	case 1:
		prefix = L{M{"const": 2}, M{"const": 1}}
	}
	s := M{"type": "array", "contains": con, "prefixItems": prefix}
	var items any
	if Bool("items?") {
		items = M{"enum": L{1, 3}}
		s["items"] = items
	}
	unique := Bool("unique?")
	if unique {
		s["uniqueItems"] = true
	}
	need := Int("minContains", 0, 2)
	most := Int("maxContains", 0, 2)
	s["minContains"], s["maxContains"] = need, most
	if Bool("minItems?") {
		s["minItems"] = Int("minItems", 0, 3)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 2
	o.MaximumUniqueGeneratorAttempts = 2
	v := generated(g, o)
	if unique {
		need = 0 // a text may take the place of a match
	}
	checkLimited(v, con, need, most, items, prefix)
}

// H_P09_optional: with a minContains of zero nothing has to match.
func H_P09_optional() {
	s := M{"type": "array", "contains": M{"type": "integer"}, "minContains": 0}
	var items any
	closed := false
	switch Choice("items", 4) {
	case 0:
		items = M{"type": "string", "maxLength": 2}
		s["items"] = items
	case 1:
		items = M{"type": "integer", "minimum": 1, "maximum": 2}
		s["items"] = items
	case 2:
		s["items"] = false
		closed = true
	}
	if Bool("prefix?") {
		s["prefixItems"] = prefixSchemas(1)
	}
	if !closed && Bool("minItems?") {
		s["minItems"] = Int("minItems", 0, 3)
	}
	max := 1 << 30
	if Bool("maxItems?") {
		max = Int("maxItems", 1, 3)
		s["maxItems"] = max
	}
	if m, ok := s["minItems"].(int); ok && m > max {
		return
	}
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "a satisfiable schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 2
	v := generated(g, o)
	Check("valid", Valid(s, s, v), "the array violates its schema")
}

// H_P09_within: what matches contains still satisfies all that applies to it.
func H_P09_within() {
	s := M{"type": "array"}
	switch Choice("form", 4) {
	case 0:
		s["items"] = L{M{"const": 0}}
		s["additionalItems"] = M{"type": "integer", "maximum": Int("maximum", 3, 7), "minimum": 2}
		s["contains"] = M{"type": "integer", "minimum": 5, "maximum": 9}
	case 1:
		s["items"] = L{M{"const": 0}}
		s["additionalItems"] = M{"type": "string", "maxLength": 2}
		s["contains"] = M{"minLength": Int("minLength", 0, 3)}
	case 2:
		s["items"] = M{"type": "array", "contains": M{"const": 1}, "maxItems": 2}
		s["contains"] = M{"minItems": 2}
	case 3:
		s["items"] = M{"type": "array", "maxItems": 2}
		s["contains"] = M{"contains": M{"const": 1}}
	}
	if Bool("minContains?") {
		s["minContains"] = Int("minContains", 0, 2)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 2
	v := generated(g, o)
	Check("valid", Valid(s, s, v), "the array violates its schema")
}

// H_P09_alike: properties whose names look alike have their own limits.
func H_P09_alike() {
	list := func(k int) M {
		return M{"type": "array", "items": M{"type": "integer", "minimum": 1, "maximum": 2}, "contains": M{"const": k}, "minContains": 0, "maxContains": 0, "minItems": 1, "maxItems": 1}
	}
	alike(list(1), list(2), func(v any) bool {
		l, _ := v.([]any)
		for _, x := range l {
			if unable(x) {
				return true
			}
		}
		return false
	})
}
