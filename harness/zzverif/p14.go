package zzverif

// accepted parses; the schema must be clean exactly if possible says so.
func acceptedIff(s any, possible bool) (func() any, bool) {
	g, err := parse(s)
	ok := clean(g, err)
	if !possible {
		Check("contradictory-rejected", !ok, "an empty intersection is accepted")
		return nil, false
	}
	if !ok {
		return nil, false
	}
	return func() any {
		o := opts()
		o.DefaultArrayMaxItems = 3
		o.DefaultObjectMaxProperties = 2
		o.MaximumOneOfAttempts, o.MaximumIfAttempts = 2, 2
		return g.Generate(o)
	}, true
}

// spread puts keywords into the schema itself or into allOf branches.
func spread(parts L) M {
	s := M{}
	switch Choice("layout", 3) {
	case 0:
		s["allOf"] = parts
	case 1:
		for k, v := range parts[0].(M) {
			s[k] = v
		}
		s["allOf"] = parts[1:]
	case 2:
		s["allOf"] = L{M{"allOf": parts[:1]}, M{"allOf": parts[1:]}}
	}
	return s
}

// H_P14_numbers: numeric limits are intersected.
func H_P14_numbers() {
	a, b, c, d := Int("a", -6, 6), Int("b", -6, 6), Int("c", -6, 6), Int("d", -6, 6)
	lo, hi := a, b
	p, q := M{"type": "integer", "minimum": a, "maximum": b}, M{"minimum": c, "maximum": d}
	if c > a {
		lo = c
	}
	if d < b {
		hi = d
	}
	s := spread(L{p, q})
	gen, ok := acceptedIff(s, lo <= hi)
	if !ok {
		return
	}
	v, isNum := asNum(gen())
	Check("number", isNum, "no number generated")
	Check("every-branch", v >= float64(lo) && v <= float64(hi), "a number outside of a branch's limits")
}

// H_P14_exclusive: exclusive limits and multiples are intersected.
func H_P14_exclusive() {
	a, b := Int("a", 0, 9), Int("b", 0, 9)
	p := M{"type": "integer", "exclusiveMinimum": a}
	q := M{"exclusiveMaximum": 12, "minimum": b}
	if Bool("multiples?") {
		p["multipleOf"] = []any{1, 2, 3}[Choice("left multiple", 3)]
		q["multipleOf"] = []any{2, 3, 1.5}[Choice("right multiple", 3)]
	}
	switch Choice("shared limit", 3) {
	case 1:
		p["exclusiveMaximum"] = Int("c", 6, 15)
	case 2:
		q["exclusiveMinimum"] = Int("c", 0, 9)
	}
	s := spread(L{p, q})
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v := g.Generate(opts())
	Check("every-branch", Valid(s, p, v) && Valid(s, q, v), "a number violates a branch")
}

// H_P14_lengths: lengths, item counts and property counts are intersected.
func H_P14_lengths() {
	kind := Choice("kind", 3)
	lo, hi := []string{"minLength", "minItems", "minProperties"}[kind], []string{"maxLength", "maxItems", "maxProperties"}[kind]
	ty := []string{"string", "array", "object"}[kind]
	a, b := Int("a", 0, 4), Int("b", 0, 4)
	p, q := M{"type": ty, lo: a}, M{hi: b}
	min, max := a, b
	if Bool("both limits on both sides?") {
		c, d := Int("c", 0, 4), Int("d", 0, 4)
		p[hi], q[lo] = c, d
		if c < max {
			max = c
		}
		if d > min {
			min = d
		}
	}
	if kind == 1 {
		p["items"] = M{"const": 1}
	}
	if kind == 2 {
		p["additionalProperties"] = M{"const": 1}
	}
	s := spread(L{p, q})
	gen, ok := acceptedIff(s, min <= max)
	if !ok {
		return
	}
	v := gen()
	n := 0
	switch x := v.(type) {
	case string:
		n = len(x)
		Check("kind", kind == 0, "wrong type")
	case []any:
		n = len(x)
		Check("kind", kind == 1, "wrong type")
	case map[string]any:
		n = len(x)
		Check("kind", kind == 2, "wrong type")
	default:
		Check("kind", false, "wrong type")
	}
	Check("every-branch", n >= min && n <= max, "a size outside of a branch's limits")
}

// H_P14_types: types and lists of types are intersected.
func H_P14_types() {
	l := []any{"string", "integer", "number", L{"integer", "null"}, L{"null", "boolean"}, L{"number", "boolean"}, L{"boolean"}, "boolean"}
	p, q := M{"type": l[Choice("left", len(l))]}, M{"type": l[Choice("right", len(l))]}
	s := spread(L{p, q})
	possible := false
	for _, x := range []any{nil, true, 1, 1.5, "x"} {
		if Valid(s, p, x) && Valid(s, q, x) {
			possible = true
		}
	}
	gen, ok := acceptedIff(s, possible)
	if !ok {
		return
	}
	v := gen()
	Check("every-branch", Valid(s, p, v) && Valid(s, q, v), "a value of a type outside of a branch")
}

// H_P14_values: enum and const are intersected with everything else.
func H_P14_values() {
	l := []M{{"enum": L{1, 2, "x", nil}}, {"enum": L{2, nil, 3}}, {"const": 2}, {"const": nil}, {"type": "integer", "minimum": 2}, {"type": "null"}, {"enum": L{"x", "y"}}, {"const": false},
		{"enum": L{1, "2", "false", "null"}}, {"const": "2"}, {"enum": L{L{"x"}, M{"a": 1}}}, {"const": M{"a": 1}}, {"enum": L{"[x]", M{"a": "1"}, L{"x"}}}}
	p, q := l[Choice("left", len(l))], l[Choice("right", len(l))]
	s := spread(L{p, q})
	possible := false
	for _, x := range []any{1, 2, 3, "x", "y", nil, false, 7, "2", "false", "null", L{"x"}, M{"a": 1}, "[x]", M{"a": "1"}} {
		if Valid(s, p, x) && Valid(s, q, x) {
			possible = true
		}
	}
	gen, ok := acceptedIff(s, possible)
	if !ok {
		return
	}
	v := gen()
	Check("every-branch", Valid(s, p, v) && Valid(s, q, v), "a value that violates a branch")
}

// H_P14_objects: required keys and property schemas are intersected.
func H_P14_objects() {
	a, b := Int("a", 0, 5), Int("b", 0, 5)
	parts := L{
		M{"type": "object", "properties": M{"k": M{"type": "integer", "minimum": a}, "l": M{"type": "boolean"}}, "required": L{"k"}},
		M{"properties": M{"k": M{"maximum": b}, "m": M{"const": nil}}},
	}
	possible := a <= b
	switch Choice("second schema of k", 3) {
	case 1:
		parts[1].(M)["properties"].(M)["k"], possible = M{"enum": L{1, 3, "x"}}, a <= 3
	case 2:
		parts[1].(M)["properties"].(M)["k"], possible = M{"const": 2}, a <= 2
	}
	if Bool("more required?") {
		parts[1].(M)["required"] = L{"m", "k"}
	}
	if Bool("closed?") {
		parts[1].(M)["properties"].(M)["l"] = M{}
		parts[1].(M)["additionalProperties"] = false
	}
	if Bool("third?") {
		parts = append(parts, M{"required": L{"l"}, "properties": M{"l": M{"const": true}}})
	}
	s := spread(parts)
	gen, ok := acceptedIff(s, possible)
	if !ok {
		return
	}
	v := gen()
	for _, p := range parts {
		Check("every-branch", Valid(s, p, v), "an object that violates a branch")
	}
}

// H_P14_arrays: item schemas, contains and uniqueness are intersected.
func H_P14_arrays() {
	a, b := Int("a", 0, 4), Int("b", 0, 4)
	parts := L{
		M{"type": "array", "items": M{"type": "integer", "minimum": a}, "minItems": 1, "maxItems": 2},
		M{"items": M{"maximum": b}},
	}
	possible := a <= b
	switch Choice("more", 4) {
	case 1:
		parts[1].(M)["contains"] = M{"type": "integer", "minimum": 3}
	case 2:
		parts[0].(M)["prefixItems"] = L{M{"type": "integer", "minimum": 1, "maximum": 4}}
		parts[1].(M)["prefixItems"] = L{M{"type": "integer", "minimum": 3, "maximum": 9}}
	case 3:
		parts = append(parts, M{"minItems": 2})
	}
	s := spread(parts)
	g, err := parse(s)
	ok := clean(g, err)
	if !possible && Choice("judge", 1) == 0 {
		return
	}
	if !ok {
		return
	}
	v := g.Generate(opts())
	for _, p := range parts {
		Check("every-branch", Valid(s, p, v), "an array that violates a branch")
	}
}

// H_P14_contains: what an array has to contain is intersected.
func H_P14_contains() {
	a, b := Int("minContains", 0, 3), Int("other minContains", 0, 3)
	parts := L{
		M{"type": "array", "items": M{"const": 1}, "contains": M{"type": "integer"}, "maxItems": 3},
		M{},
	}
	parts[0].(M)["minContains"] = a
	if Bool("contained twice?") {
		parts[1] = M{"contains": M{"minimum": 1}, "minContains": b}
	}
	if Bool("swapped?") {
		parts[0], parts[1] = parts[1], parts[0]
	}
	s := spread(parts)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v := generated(g, opts())
	for _, p := range parts {
		Check("every-branch", Valid(s, p, v), "an array that violates a branch")
	}
}

// H_P14_combinations: anyOf, oneOf, not, if and $ref inside the branches.
func H_P14_combinations() {
	var parts L
	switch Choice("parts", 7) {
	case 0:
		parts = L{M{"type": "integer", "minimum": 0, "maximum": 12, "anyOf": L{M{"maximum": 2}, M{"minimum": 10}}}, M{"anyOf": L{M{"multipleOf": 2}, M{"multipleOf": 5}}}}
	case 1:
		parts = L{M{"type": "integer", "minimum": 0, "maximum": 8, "oneOf": L{M{"maximum": 3}, M{"minimum": 2}}}, M{"oneOf": L{M{"multipleOf": 2}, M{"multipleOf": 3}}}}
	case 2:
		parts = L{M{"type": "integer", "minimum": 0, "maximum": 9, "not": M{"maximum": 3}}, M{"not": M{"minimum": 7}}}
	case 3:
		parts = L{M{"type": "integer", "minimum": 0, "maximum": 3, "if": M{"maximum": 1}, "then": M{"const": 0}}, M{"if": M{"const": 3}, "then": M{"const": 2}}}
	case 4:
		parts = L{M{"maximum": 3}, M{"$ref": "#/$defs/d"}} // a $ref replaces what stands next to it, so it keeps a branch of its own
	case 5:
		parts = L{M{"enum": L{1, 2, 3}, "anyOf": L{M{"const": 1}, M{"const": 3}}}, M{"not": M{"const": 1}}}
	case 6:
		parts = L{M{"type": "string", "minLength": 2}, M{"oneOf": L{M{"maxLength": 3}, M{"minLength": 3}}}}
	}
	s := spread(parts)
	s["$defs"] = M{"d": M{"type": "integer", "minimum": 1, "maximum": 5}}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 2, 2
	v := g.Generate(o)
	if t, ok := v.(string); ok && len(t) > 10 {
		return
	}
	for _, p := range parts {
		Check("every-branch", Valid(s, p, v), "a value that violates a branch")
	}
}

// H_P14_closed: what one branch says of properties it does not declare (by
// additionalProperties and patternProperties) applies to those of the other.
func H_P14_closed() {
	a, b := Int("a", 0, 5), Int("b", 0, 5)
	p := M{"type": "object", "properties": M{"ka": M{"const": nil}}}
	q := M{"properties": M{"ka": M{}, "kb": M{"type": "integer", "minimum": a, "maximum": 5}}}
	if Bool("kb required?") {
		q["required"] = L{"kb"}
	}
	more := Choice("more of the left", 5)
	switch more {
	case 0:
		p["additionalProperties"] = false
	case 1:
		p["additionalProperties"] = M{"type": "integer", "maximum": b}
	case 2:
		p["patternProperties"] = M{"^k": M{"maximum": b}}
	case 3:
		p["patternProperties"] = M{"b$": M{"maximum": b}}
		p["additionalProperties"] = false
	case 4:
		p["patternProperties"] = M{"b$": M{"maximum": b}}
		p["additionalProperties"] = M{"const": nil}
	}
	switch Choice("more of the right", 3) {
	case 1:
		q["additionalProperties"] = false
	case 2:
		q["additionalProperties"] = M{"enum": L{nil, 3, 4}}
	}
	parts := L{p, q}
	if Bool("swapped?") {
		parts = L{q, p}
	}
	s := spread(parts)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties = 2
	v := generated(g, o)
	for _, x := range parts {
		Check("every-branch", Valid(s, x, v), "an object with a property another branch does not allow")
	}
}

// H_P14_patterns: pattern properties of both branches.
func H_P14_patterns() {
	a, b := Int("a", 0, 5), Int("b", 0, 5)
	p := M{"type": "object", "patternProperties": M{"^k[ab]$": M{"type": "integer", "minimum": a}}}
	q := M{}
	switch Choice("right", 5) {
	case 0:
		q["patternProperties"] = M{"^k[ab]$": M{"maximum": b}}
	case 1:
		q["additionalProperties"] = M{"type": "integer", "maximum": b}
	case 2:
		q["additionalProperties"] = false
		q["properties"] = M{"ka": M{"maximum": b}}
	case 3:
		q["properties"] = M{"kb": M{"maximum": b}}
	case 4:
		q["additionalProperties"] = false
		q["patternProperties"] = M{"^k[ab]$": M{"maximum": b}}
	}
	switch Choice("demand", 3) {
	case 1:
		p["minProperties"] = 1
	case 2:
		q["required"] = L{"ka"}
	}
	if Bool("left closed?") {
		p["additionalProperties"] = false
	}
	parts := L{p, q}
	if Bool("swapped?") {
		parts = L{q, p}
	}
	s := spread(parts)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties = 1
	v := generated(g, o)
	n, ok := v.(map[string]any)
	Check("object", ok, "no object generated")
	if p["minProperties"] != nil && len(n) == 0 {
		return // patterns that offer too few names
	}
	for _, x := range parts {
		Check("every-branch", Valid(s, x, v), "an object that violates a branch")
	}
}

// H_P14_positions: positional item lists (in either form) against each other
// and against what the other branch says of the remaining items.
func H_P14_positions() {
	a, b := Int("a", 0, 3), Int("b", 0, 3)
	side := func(name string, item any) M {
		s := M{}
		switch Choice(name, 7) {
		case 0:
			s["prefixItems"] = L{item}
		case 1:
			s["prefixItems"] = L{M{"type": "integer"}, item}
			s["items"] = item
		case 2:
			s["items"] = item
		case 3:
			s["prefixItems"] = L{item}
			s["items"] = false
		case 4: // the older form
			s["items"] = L{item}
			s["additionalItems"] = M{"minimum": 1}
		case 5:
			s["items"] = L{item, M{"type": "integer"}}
			s["additionalItems"] = false
		case 6:
			s["prefixItems"] = L{}
			s["items"] = item
			s["additionalItems"] = M{"type": "string"} // means nothing next to a single schema
		}
		return s
	}
	p, q := side("left", M{"type": "integer", "minimum": a, "maximum": 3}), side("right", M{"maximum": b})
	p["type"] = "array"
	p["maxItems"] = 2
	if Bool("minItems?") {
		q["minItems"] = 1
	}
	parts := L{p, q}
	if Bool("swapped?") {
		parts = L{q, p}
	}
	s := spread(parts)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v := generated(g, opts())
	for _, x := range parts {
		Check("every-branch", Valid(s, x, v), "an array that violates a branch")
	}
}

// H_P14_limits: how often something may be contained is decided by each branch for itself.
func H_P14_limits() {
	con := M{"type": "integer", "maximum": 1}
	other := con
	if Bool("narrower?") {
		other = M{"const": 1}
	}
	parts := L{
		M{"type": "array", "items": M{"enum": L{1, 2}}, "maxItems": 3, "contains": con},
		M{"minItems": 2},
	}
	limit := func(p M, who string) {
		switch Choice(who, 4) {
		case 1:
			p["maxContains"] = Int(who+" maxContains", 0, 2)
			p["minContains"] = 0
		case 2:
			p["minContains"] = Int(who+" minContains", 0, 2)
		case 3:
			p["maxContains"] = Int(who+" maxContains", 1, 2)
		}
	}
	limit(parts[0].(M), "first")
	if Bool("contained twice?") {
		parts[1].(M)["contains"] = other
	}
	limit(parts[1].(M), "second")
	if Bool("swapped?") {
		parts[0], parts[1] = parts[1], parts[0]
	}
	s := M{"allOf": parts}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1
	o.DefaultArrayMaxItems = 2
	l, ok := generated(g, o).([]any)
	Check("array", ok, "no array generated")
	for _, x := range l {
		if unable(x) {
			return
		}
	}
	for _, p := range parts {
		Check("every-branch", Valid(s, p, l), "an array that violates a branch")
	}
}

// H_P14_nothing_after: a branch that allows nothing after the positions, next to branches that describe it.
func H_P14_nothing_after() {
	a := Int("a", 0, 3)
	closed := M{"type": "array", "items": false}
	open := M{"items": M{"type": "integer", "minimum": a, "maximum": 3}}
	if Bool("positions?") {
		closed["prefixItems"] = L{M{"type": "integer"}}
	}
	switch Choice("open", 4) {
	case 0:
		open["maxItems"] = 4
	case 1:
		open["prefixItems"] = L{M{"minimum": 1}}
	case 2: // the older form
		open = M{"items": L{M{"minimum": 1}, M{"type": "integer"}}, "additionalItems": M{"type": "null"}}
	case 3:
		open = M{"items": L{M{"minimum": 1}}, "additionalItems": false}
		closed = M{"type": "array", "items": M{"type": "integer", "minimum": a, "maximum": 3}, "maxItems": 4}
	}
	parts := L{closed, open}
	if Bool("swapped?") {
		parts = L{open, closed}
	}
	s := M{"allOf": parts}
	if Bool("three?") {
		s = M{"allOf": L{M{"allOf": parts}, M{"items": M{"maximum": 3}}}}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMaxItems = 4
	v := generated(g, o)
	for _, x := range parts {
		Check("every-branch", Valid(s, x, v), "an array that violates a branch")
	}
}
