package zzverif

import chaff "github.com/ryanolee/go-chaff"

// small are keywords that keep the values of every type small.
func small() M {
	return M{"minimum": 0, "maximum": 1, "maxLength": 2, "maxItems": 1, "maxProperties": 1}
}

// oneOfTypes tells whether the value has one of the types.
func oneOfTypes(v any, types ...string) bool {
	for _, t := range types {
		if hasType(t, v) {
			return true
		}
	}
	return false
}

func smallOpts() *chaff.GeneratorOptions {
	o := opts()
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties, o.DefaultStringMaxLength = 1, 1, 1
	return o
}

// inPlace puts a schema at some place; at() takes the values out again.
func inPlace(s M, place int) (M, func(v any) []any) {
	switch place {
	case 1:
		return M{"type": "object", "properties": M{"a": s}, "required": L{"a"}, "additionalProperties": false}, func(v any) []any {
			m, _ := v.(map[string]any)
			x, ok := m["a"]
			Check("present", ok, "a required key is missing")
			return []any{x}
		}
	case 2:
		return M{"type": "array", "items": s, "minItems": 1, "maxItems": 2}, func(v any) []any {
			l, _ := v.([]any)
			Check("not-empty", len(l) >= 1, "too few elements")
			return l
		}
	case 3:
		return M{"anyOf": L{s}}, func(v any) []any { return []any{v} }
	case 4:
		return M{"$ref": "#/$defs/a", "$defs": M{"a": s}}, func(v any) []any { return []any{v} }
	case 5:
		return M{"allOf": L{s, M{}}}, func(v any) []any { return []any{v} }
	}
	return s, func(v any) []any { return []any{v} }
}

// H_P24_single: one type, wherever the schema stands, next to keywords of other types.
func H_P24_single() {
	t := allTypes[Choice("type", 7)]
	s := small()
	if Bool("bare?") {
		s = M{}
	}
	s["type"] = any(t)
	if Bool("as list?") {
		s["type"] = L{t}
	}
	doc, at := inPlace(s, Choice("place", 6))
	g, err := parse(doc)
	ok := clean(g, err)
	Check("accepted", ok, "a plain type is rejected")
	if !ok {
		return
	}
	for _, v := range at(generated(g, smallOpts())) {
		Check("type", oneOfTypes(v, t), "a value of another type")
	}
}

// H_P24_lists: lists of types; every one of them can come up.
func H_P24_lists() {
	i := Choice("first", 7)
	j := Choice("second", 7)
	if i == j {
		return
	}
	list := L{allTypes[i], allTypes[j]}
	types := []string{allTypes[i], allTypes[j]}
	k := Choice("third", size(2, 8)) - 1
	if k >= 0 && k != i && k != j {
		list = append(list, allTypes[k])
		types = append(types, allTypes[k])
	}
	s := small()
	s["type"] = list
	doc, at := inPlace(s, Choice("place", size(2, 6)))
	g, err := parse(doc)
	ok := clean(g, err)
	Check("accepted", ok, "a list of types is rejected")
	if !ok {
		return
	}
	for _, v := range at(g.Generate(smallOpts())) {
		Check("type", oneOfTypes(v, types...), "a value of a type that is not listed")
	}
}

// H_P24_every: each type of a list is generated for some draw.
func H_P24_every() {
	lists := [][]string{{"string", "null"}, {"integer", "array", "boolean"}, {"object", "number"}, {"null", "boolean", "integer", "string", "array", "object"}}
	k := Choice("list", len(lists))
	name := string(rune('a' + k))
	list := L{}
	for _, t := range lists[k] {
		Expect("every-" + name + "-" + t)
		list = append(list, t)
	}
	s := small()
	s["type"] = list
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v := g.Generate(smallOpts())
	for _, t := range lists[k] {
		Cover("every-"+name+"-"+t, hasType(t, v))
	}
}

// H_P24_untyped: without any keyword that tells, each type may come up.
func H_P24_untyped() {
	s := []any{M{}, M{"title": "t"}, M{"description": "d", "default": 1}, M{"$comment": "c", "examples": L{1}}}[Choice("schema", 4)]
	for _, t := range allTypes {
		Expect("any-" + t)
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "an empty schema is rejected")
	if !clean(g, err) {
		return
	}
	v := g.Generate(smallOpts())
	Check("type", TypeOf(v) != "?", "a value that is not JSON")
	for _, t := range allTypes {
		Cover("any-"+t, hasType(t, v))
	}
}

var tellingKeys = []struct {
	key   string
	value any
	types string
}{
	{"properties", M{"a": M{"type": "null"}}, "object"},
	{"patternProperties", M{"^a$": M{"type": "null"}}, "object"},
	{"minProperties", 1, "object"},
	{"maxProperties", 1, "object"},
	{"required", L{"a"}, "object"},
	{"additionalProperties", false, "object"},
	{"additionalProperties", M{"type": "null"}, "object"},
	{"pattern", "^a$", "string"},
	{"format", "ipv4", "string"},
	{"minLength", 1, "string"},
	{"maxLength", 1, "string"},
	{"minimum", 1, "number"},
	{"maximum", 1, "number"},
	{"exclusiveMinimum", 1, "number"},
	{"exclusiveMaximum", 1, "number"},
	{"multipleOf", 2, "number"},
	{"items", M{"type": "null"}, "array"},
	{"uniqueItems", false, "array"},
	{"minItems", 1, "array"},
	{"maxItems", 1, "array"},
	{"contains", M{"type": "null"}, "array"},
	{"prefixItems", L{M{"type": "null"}}, "array"},
	{"minItems", 0, "array"},
	{"maxItems", 0, "array"},
	{"minLength", 0, "string"},
	{"maxLength", 0, "string"},
	{"minProperties", 0, "object"},
	{"maxProperties", 0, "object"},
	{"minimum", 0, "number"},
	{"maximum", 0, "number"},
	{"additionalItems", M{"type": "null"}, "array"},
	{"unevaluatedItems", false, "array"},
	{"minContains", 1, "array"},
	{"maxContains", 1, "array"},
}

// H_P24_inferred: keywords that belong to one type imply it.
func H_P24_inferred() {
	i := Choice("keyword", len(tellingKeys))
	s := M{tellingKeys[i].key: tellingKeys[i].value}
	if Bool("another?") {
		j := Choice("other keyword", len(tellingKeys))
		if tellingKeys[i].types != tellingKeys[j].types || tellingKeys[i].key >= tellingKeys[j].key {
			return
		}
		// the pairs that contradict or are not supported together are reported
		s[tellingKeys[j].key] = tellingKeys[j].value
	}
	if Bool("commented?") {
		s["title"] = "t"
	}
	doc, at := inPlace(s, Choice("place", size(1, 6)))
	g, err := parse(doc)
	if len(s) == 1 {
		Check("accepted", clean(g, err), "a single keyword is rejected")
	}
	if !clean(g, err) {
		return
	}
	for _, v := range at(g.Generate(smallOpts())) {
		Check("type", oneOfTypes(v, tellingKeys[i].types), "a value of a type the keywords do not belong to")
	}
}

// H_P24_contradictory: a listed type whose keywords contradict each other.
func H_P24_contradictory() {
	lists := [][]string{{"integer", "string"}, {"string", "array"}, {"object", "integer"}, {"boolean", "array", "integer"}, {"number"}}
	list := lists[Choice("list", len(lists))]
	s := M{"type": L{}}
	for _, t := range list {
		s["type"] = append(s["type"].(L), t)
	}
	lo, hi := Int("lower", 0, 3), Int("upper", 0, 3)
	bounds := [][2]string{{"minimum", "maximum"}, {"minLength", "maxLength"}, {"minItems", "maxItems"}, {"minProperties", "maxProperties"}, {"exclusiveMinimum", "exclusiveMaximum"}}
	b := bounds[Choice("bounds", len(bounds))]
	s[b[0]], s[b[1]] = lo, hi
	doc, at := inPlace(s, Choice("place", size(3, 6)))
	g, err := parse(doc)
	if err != nil {
		return
	}
	ok := clean(g, err)
	if lo <= hi && b[0] != "exclusiveMinimum" {
		Check("accepted", ok, "a consistent list of types is rejected")
	}
	if !ok {
		return
	}
	for _, v := range at(g.Generate(smallOpts())) {
		Check("type", oneOfTypes(v, list...), "a value of a type that is not listed")
	}
}

// H_P24_names: only the seven names are types.
func H_P24_names() {
	stem := []string{"null", "integer", "", "strin", "Object", "any", "arra"}[Choice("stem", 7)]
	t := append([]byte(stem), Text("rest", size(2, 4), "gyb lN")...)
	open, end := `"`, `"`
	if Bool("listed?") {
		open, end = `["null","`, `"]`
	}
	doc := append([]byte(`{"type":`+open), t...)
	doc = append(doc, end+`}`...)
	g, err := chaff.ParseSchema(doc, &chaff.ParserOptions{})
	known := false
	for _, k := range allTypes {
		if string(t) == k {
			known = true
		}
	}
	if known {
		Check("accepted", clean(g, err), "a type is rejected")
	} else {
		Check("unknown-rejected", !clean(g, err), "an unknown type is accepted")
	}
}

// H_P24_malformed: what is neither a name nor a list of names is no type.
func H_P24_malformed() {
	t := []any{1, true, nil, M{}, L{1}, L{L{"string"}}, L{"string", nil}, M{"a": "string"}, 1.5, L{}}[Choice("type", 10)]
	doc, _ := inPlace(M{"type": t}, Choice("place", 4))
	g, err := parse(doc)
	if t == nil {
		return // null stands for an absent keyword
	}
	Check("malformed-rejected", !clean(g, err), "a malformed type is accepted")
}
