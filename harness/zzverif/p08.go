package zzverif

func itemLimits(s M, lo, hi int) (min, max int) {
	min, max = 0, 1<<30
	if Bool("minItems?") {
		min = Int("minItems", lo, hi)
		s["minItems"] = min
	}
	if Bool("maxItems?") {
		max = Int("maxItems", lo, hi)
		s["maxItems"] = max
	}
	return
}

func prefixSchemas(n int) L {
	return L{M{"type": "integer", "minimum": 1, "maximum": 3}, M{"type": "boolean"}, M{"const": "c"}}[:n]
}

// checkArray judges length, prefix and rest separately.
func checkArray(v any, min, max int, prefix L, rest any, hasRest bool) {
	l, ok := v.([]any)
	Check("array", ok, "no array generated")
	if !ok {
		return
	}
	Check("min-items", len(l) >= min, "fewer elements than minItems")
	Check("max-items", len(l) <= max, "more elements than maxItems")
	for i, x := range l {
		if i < len(prefix) {
			Check("prefix-position", Valid(prefix[i], prefix[i], x), "a leading element violates its prefix schema")
			continue
		}
		if b, isBool := rest.(bool); hasRest && isBool {
			Check("nothing-follows", b, "an element follows the prefix of a closed array")
		} else if hasRest {
			Check("rest", Valid(rest, rest, x), "an element violates items")
		}
	}
}

// H_P08_items: item schemas with limits present or absent, zero included.
func H_P08_items() {
	s := M{"type": "array"}
	var rest any
	hasRest := true
	switch Choice("items", 3) {
	case 0:
		rest = M{"type": "integer", "minimum": 0, "maximum": 4}
		s["items"] = rest
	case 1:
		rest = M{"const": "u"}
		s["items"] = rest
	case 2:
		hasRest = false
	}
	hi := 5
	if Thorough() {
		hi = 12
	}
	min, max := itemLimits(s, 0, hi)
	g, err := parse(s)
	ok := clean(g, err)
	if min > max {
		Check("contradictory-rejected", !ok, "minItems > maxItems is accepted")
		return
	}
	Check("consistent-accepted", ok, "satisfiable item counts are rejected")
	if ok {
		o := opts()
		o.DefaultArrayMaxItems = 3
		checkArray(generated(g, o), min, max, nil, rest, hasRest)
	}
}

// H_P08_long: limits beyond the default range.
func H_P08_long() {
	s := M{"type": "array", "items": M{"const": 1}}
	min, max := itemLimits(s, 0, 14)
	Assume(min <= max)
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "satisfiable item counts are rejected")
	if ok {
		checkArray(generated(g, opts()), min, max, nil, M{"const": 1}, true)
	}
}

// H_P08_prefix: prefixItems or list-form items, followed by items,
// additionalItems, nothing, or anything.
func H_P08_prefix() {
	n := Choice("prefix", 3)
	if Thorough() {
		n = Choice("longer prefix", 4)
	}
	pre := prefixSchemas(n)
	s := M{"type": "array"}
	legacy := Bool("list form?")
	restKey := "items"
	if legacy {
		Assume(n > 0)
		s["items"] = pre
		restKey = "additionalItems"
	} else if n > 0 {
		s["prefixItems"] = pre
	}
	var rest any
	hasRest, closed := true, false
	switch Choice("rest", 3) {
	case 0:
		rest = M{"type": "integer", "minimum": 8, "maximum": 9}
		s[restKey] = rest
	case 1:
		rest, closed = false, true
		s[restKey] = false
	case 2:
		hasRest = false
	}
	min, max := itemLimits(s, 0, 5)
	g, err := parse(s)
	ok := clean(g, err)
	if min > max || (closed && min > n) {
		Check("contradictory-rejected", !ok, "contradictory item counts are accepted")
		return
	}
	// the generator declines maxItems below the prefix length
	if max >= n {
		Check("consistent-accepted", ok, "satisfiable item counts are rejected")
	}
	if ok {
		o := opts()
		o.DefaultArrayMaxItems = 4
		checkArray(generated(g, o), min, max, pre, rest, hasRest)
	}
}

// H_P08_open: a schema for the elements that anything satisfies still lets elements in.
func H_P08_open() {
	s := M{"type": "array"}
	open := M{}
	switch Choice("keyword", 4) {
	case 0:
		s["items"] = open
	case 1:
		s["items"], s["additionalItems"] = L{}, open
	case 2:
		s["prefixItems"], s["items"] = L{open}, open
	case 3:
		s["items"] = M{"not": M{"type": "string"}}
	}
	n := Int("n", 0, 2)
	s["minItems"] = n
	s["maxItems"] = n + Int("more", 0, 1)
	if _, tuple := s["prefixItems"]; tuple {
		Assume(n > 0)
	}
	g, err := parse(s)
	Check("consistent-accepted", clean(g, err), "satisfiable item counts are rejected")
	if !clean(g, err) {
		return
	}
	o := smallOpts()
	o.MaximumUniqueGeneratorAttempts = 1
	l, ok := g.Generate(o).([]any)
	Check("array", ok && len(l) >= n, "too few elements")
}

// H_P08_negative: negative counts are errors.
func H_P08_negative() {
	s := M{"type": "array", "items": M{"const": 1}}
	min, max := itemLimits(s, -9, 9)
	Assume(min < 0 || max < 0)
	g, err := parse(s)
	Check("negative-rejected", !clean(g, err), "a negative count is accepted")
}

// H_P08_options: configured defaults never override the schema.
func H_P08_options() {
	s := M{"type": "array", "items": M{"const": 1}}
	n := 0
	if Bool("prefix?") {
		n = 1
		s["prefixItems"] = prefixSchemas(1)
	}
	min, max := itemLimits(s, 0, 4)
	Assume(min <= max && max >= n)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMinItems = Int("DefaultArrayMinItems", 0, 6)
	o.DefaultArrayMaxItems = Int("DefaultArrayMaxItems", 0, 6)
	Assume(o.DefaultArrayMinItems <= o.DefaultArrayMaxItems)
	checkArray(generated(g, o), min, max, prefixSchemas(n), M{"const": 1}, true)
}

// H_P08_minimised: limits hold past the minimise threshold too.
func H_P08_minimised() {
	in := M{"type": "array", "items": M{"const": 1}}
	min, max := itemLimits(in, 0, 3)
	Assume(min <= max)
	g, err := parse(M{"type": "array", "items": in, "minItems": 3, "maxItems": 3})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumGenerationSteps = Int("MaximumGenerationSteps", 1, 5)
	o.DefaultArrayMaxItems = 4
	l, _ := g.Generate(o).([]any)
	Check("outer", len(l) == 3, "outer elements missing")
	for _, x := range l {
		checkArray(x, min, max, nil, M{"const": 1}, true)
	}
}
