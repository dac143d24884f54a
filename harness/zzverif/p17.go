package zzverif

import (
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// placeRef puts a reference somewhere into the document; at() finds the generated instance.
func placeRef(doc M, ref any, place int) func(v any) []any {
	r := M{"$ref": ref}
	self := func(v any) []any { return []any{v} }
	switch place {
	case 0:
		doc["$ref"] = ref
		return self
	case 1:
		doc["type"], doc["required"], doc["additionalProperties"] = "object", L{"p"}, false
		doc["properties"] = M{"p": r}
		return func(v any) []any {
			m, _ := v.(map[string]any)
			return []any{m["p"]}
		}
	case 2:
		doc["type"], doc["minItems"], doc["maxItems"], doc["items"] = "array", 1, 2, r
		return func(v any) []any { l, _ := v.([]any); return l }
	case 3:
		doc["type"], doc["minItems"], doc["maxItems"], doc["prefixItems"] = "array", 1, 1, L{r}
		return func(v any) []any { l, _ := v.([]any); return l }
	case 4:
		doc["type"], doc["minProperties"], doc["maxProperties"], doc["additionalProperties"] = "object", 1, 1, r
		return func(v any) []any {
			m, _ := v.(map[string]any)
			var l []any
			for _, x := range m {
				l = append(l, x)
			}
			return l
		}
	case 5:
		doc["allOf"] = L{r}
		return self
	case 6:
		doc["anyOf"] = L{r}
		return self
	case 7:
		doc["oneOf"] = L{r}
		return self
	case 8:
		doc["allOf"] = L{M{"type": L{"integer", "string"}}, r}
		return self
	case 9:
		doc["oneOf"] = L{M{"allOf": L{r}}}
		return self
	}
	return self
}

// H_P17_targets: whatever the pointer designates is what is generated.
func H_P17_targets() {
	k := Int("k", 0, 9)
	want := M{"type": "integer", "minimum": k, "maximum": k}
	doc := M{"$defs": M{
		"d":     want,
		"a/b":   want,
		"t~x":   want,
		"a b":   want,
		"other": M{"type": "boolean"},
		"o":     M{"type": "object", "properties": M{"x": want, "y": M{"type": "null"}}, "patternProperties": M{"^z$": want}, "additionalProperties": want},
		"l":     M{"type": "array", "prefixItems": L{M{"type": "null"}, want}, "items": want, "contains": want},
		"tuple": M{"type": "array", "items": L{want, M{"type": "null"}}, "additionalItems": want},
		"c":     M{"anyOf": L{M{"type": "null"}, want}},
		"e":     M{"oneOf": L{M{"type": "null"}, want}},
		"i":     M{"type": "integer", "minimum": 0, "maximum": 9, "if": M{"type": "integer"}, "then": want},
		"j":     M{"if": M{"type": "null"}, "then": M{"type": "null"}, "else": want},
		"cond":  M{"if": want, "then": M{"type": "integer"}},
		"neg":   M{"type": "string", "not": want},
		"rest":  M{"type": "array", "unevaluatedItems": want},
		"chain": M{"$ref": "#/$defs/d"},
		"deep":  M{"$defs": M{"e": want}, "type": "null"},
	}, "definitions": M{"d": want}}
	refs := []string{
		"#/$defs/d", "#/definitions/d", "#/$defs/o/properties/x", "#/$defs/l/prefixItems/1", "#/$defs/l/items",
		"#/$defs/c/anyOf/1", "#/$defs/e/oneOf/1", "#/$defs/chain", "#/$defs/deep/$defs/e", "#/$defs/o/additionalProperties",
		"#/$defs/l/contains", "#/$defs/tuple/items/0", "#/$defs/a~1b", "#/$defs/t~0x", "#/$defs/a%20b", "#/$defs/i/then", "#/$defs/tuple/additionalItems", "#/$defs/o/patternProperties/^z$",
		"#/$defs/j/else", "#/$defs/cond/if", "#/$defs/neg/not", "#/$defs/rest/unevaluatedItems",
	}
	ref := refs[Choice("target", len(refs))]
	at := placeRef(doc, ref, Choice("place", 10))
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 1, 1
	for _, v := range at(g.Generate(o)) {
		n, ok := asNum(v)
		Check("designated-schema", ok && n == float64(k), "a value of another schema is generated for "+ref)
	}
}

// H_P17_ids: identifiers designate the schema that carries them.
func H_P17_ids() {
	k := Int("k", 0, 9)
	want := M{"type": "integer", "minimum": k, "maximum": k}
	with := func(id string) M {
		return M{"$id": id, "type": "integer", "minimum": k, "maximum": k, "$defs": M{"in": want}}
	}
	doc := M{}
	var ref string
	switch Choice("id", 8) {
	case 6:
		doc["$id"] = "https://example.com/root.json"
		doc["$defs"] = M{"d": M{"$id": "dir/index.json", "type": "null", "$defs": M{"in": with("item.json")}}}
		ref = "https://example.com/dir/item.json"
	case 7:
		doc["$defs"] = M{"d": M{"$id": "https://example.com/a/b.json", "type": "null", "$defs": M{"in": with("../c.json")}}, "e": with("https://example.com/a/c.json")}
		doc["$defs"].(M)["e"] = M{"$id": "https://example.com/a/c.json", "type": "null"}
		ref = "https://example.com/c.json"
	case 0:
		doc["$defs"], ref = M{"d": with("item"), "e": M{"$id": "thing", "type": "null"}}, "item"
	case 1:
		doc["$defs"], ref = M{"d": with("https://example.com/item.json")}, "https://example.com/item.json"
	case 2:
		doc["$id"] = "https://example.com/root.json"
		doc["$defs"], ref = M{"d": with("item.json")}, "item.json"
	case 3:
		doc["$defs"], ref = M{"d": with("item"), "e": M{"type": "null"}}, "item#/$defs/in"
	case 4:
		doc["$defs"], ref = M{"d": with("item#"), "e": M{"type": "null"}}, "item"
	case 5:
		doc["$id"] = "https://example.com/root.json"
		doc["$defs"], ref = M{"d": with("sub/item.json")}, "https://example.com/sub/item.json"
	}
	at := placeRef(doc, ref, Choice("place", 10))
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 1, 1
	for _, v := range at(g.Generate(o)) {
		n, ok := asNum(v)
		Check("designated-schema", ok && n == float64(k), "a value of another schema is generated for "+ref)
	}
}

// H_P17_id_places: an identifier is found wherever the schema that carries it stands.
func H_P17_id_places() {
	k := Int("k", 0, 9)
	with := M{"$id": "item", "type": "integer", "minimum": k, "maximum": k}
	var d M
	switch Choice("below", 15) {
	case 0:
		d = M{"type": "array", "items": with}
	case 1:
		d = M{"type": "array", "prefixItems": L{M{"type": "null"}, with}}
	case 2:
		d = M{"type": "array", "items": L{M{"type": "null"}, with}}
	case 3:
		d = M{"type": "object", "properties": M{"items": with}}
	case 4:
		d = M{"type": "object", "additionalProperties": with}
	case 5:
		d = M{"type": "object", "patternProperties": M{"^x~/$": with}}
	case 6:
		d = M{"anyOf": L{M{"type": "null"}, with}}
	case 7:
		d = M{"oneOf": L{with, M{"type": "null"}}}
	case 8:
		d = M{"type": "integer", "minimum": 0, "maximum": 9, "if": M{"type": "integer"}, "then": with}
	case 9:
		d = M{"type": "null", "not": with}
	case 10:
		d = M{"type": "array", "contains": with}
	case 11:
		d = M{"type": "object", "properties": M{"properties": M{"type": "object", "properties": M{"x": with}}}}
	case 12:
		d = M{"type": "array", "unevaluatedItems": with}
	case 13:
		d = M{"type": "null", "definitions": M{"items": M{"type": "array", "items": with}}}
	case 14:
		d = M{"if": with, "then": M{"type": "integer"}, "else": M{"type": "null"}}
	}
	// what looks like an identifier but is data stands for nothing
	doc := M{"$defs": M{"c": M{"const": M{"$id": "item"}}, "d": d}}
	at := placeRef(doc, "item", Choice("place", 10))
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 1, 1
	for _, v := range at(g.Generate(o)) {
		n, ok := asNum(v)
		Check("designated-schema", ok && n == float64(k), "a value of another schema is generated for item")
	}
}

// unresolved recognises the documented text.
func unresolved(v any) bool {
	t, ok := v.(string)
	return ok && strings.HasPrefix(t, "Unresolvable reference: ")
}

// H_P17_dangling: pointers that designate nothing are reported.
func H_P17_dangling() {
	doc := M{"$defs": M{
		"d": M{"type": "integer", "minimum": 1, "maximum": 2},
		"o": M{"type": "object", "properties": M{"x": M{"type": "null"}}, "additionalProperties": false},
		"l": M{"type": "array", "prefixItems": L{M{"type": "null"}}, "items": false, "minItems": 1},
		"n": M{"type": "array", "items": M{"type": "null"}},
	}}
	refs := []string{
		"#/$defs/missing", "#/definitions/d", "#/$defs/d/properties/x", "#/$defs/o/properties/y", "#/$defs/o/additionalProperties", "#/$defs/l/prefixItems/1",
		"#/$defs/l/prefixItems/-1", "#/$defs/l/prefixItems/x", "#/$defs/l/items", "#/$defs/l/items/0", "#/$defs/n/items/0", "#/$defs/n/prefixItems/0", "#/$defs/d/items",
		"#/$defs/d/additionalProperties", "#/$defs/d/additionalProperties/properties/x", "#/$defs/d/items/properties/x", "#/$defs/d/additionalItems/not", "#/$defs/d/unevaluatedItems/not", "#/$defs/d/not", "#/$defs/d/oneOf/0", "#/$defs/d/if",
		"#/nowhere", "#/", "#nowhere", "#/$defs", "#/$defs/", "#/$defs/d/type", "#/$defs/l/prefixItems/99999999999999999999", "#/$defs/l/prefixItems/00",
		"other.json", "other.json#/$defs/d", "https://example.com/x.json#/$defs/d", "missing", "#/#/$defs/d", "#/$defs/d#",
	}
	ref := refs[Choice("target", len(refs))]
	at := placeRef(doc, ref, Choice("place", 10))
	g, err := parse(doc)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 1, 1
	for _, v := range at(g.Generate(o)) {
		Check("reported", unresolved(v), "a value is made up for "+ref)
	}
}

// H_P17_beside: a reference to nothing does not keep the others from being resolved.
func H_P17_beside() {
	k := Int("k", 0, 9)
	want := M{"type": "integer", "minimum": k, "maximum": k}
	doc := M{"$defs": M{"l": M{"type": "array", "contains": want, "prefixItems": L{M{"type": "null"}, want}}, "i": M{"type": "integer", "if": M{"const": 1}, "then": M{"type": "null"}}, "n": M{"type": "string", "not": want}}, "type": "array", "maxItems": 3}
	nothing := M{"$ref": []string{"#/$defs/nothing", "#/$defs/l/prefixItems/7", "other.json", "#/$defs/l/not"}[Choice("nothing", 4)]}
	good := M{"$ref": []string{"#/$defs/l/contains", "#/$defs/l/prefixItems/1", "#/$defs/n/not"}[Choice("target", 3)]}
	l := L{nothing, good}
	if Bool("twice?") {
		l = L{nothing, nothing, good}
	}
	doc["prefixItems"] = l
	g, err := parse(doc)
	if err != nil || g.Generator == nil {
		return
	}
	o := opts()
	got, _ := g.Generate(o).([]any)
	if len(got) != len(l) {
		return
	}
	n, ok := asNum(got[len(l)-1])
	Check("designated-schema", ok && n == float64(k), "a reference is not resolved next to one that cannot be")
}

// H_P17_logic: references inside not, if, then and else.
func H_P17_logic() {
	a := Int("a", 0, 4)
	doc := M{"type": "integer", "minimum": 0, "maximum": 5, "$defs": M{
		"low":  M{"type": "integer", "maximum": a},
		"even": M{"multipleOf": 2},
		"pair": M{"oneOf": L{M{"const": 1}, M{"const": 2}}},
	}}
	switch Choice("where", 6) {
	case 0:
		doc["not"] = M{"$ref": "#/$defs/low"}
	case 1:
		doc["if"], doc["then"], doc["else"] = M{"$ref": "#/$defs/low"}, M{"const": 0}, M{"$ref": "#/$defs/even"}
	case 2:
		doc["if"], doc["then"] = M{"const": 5}, M{"$ref": "#/$defs/low"}
	case 3:
		doc["anyOf"] = L{M{"$ref": "#/$defs/low"}, M{"$ref": "#/$defs/even"}}
	case 4:
		doc["allOf"] = L{M{"$ref": "#/$defs/low"}, M{"not": M{"$ref": "#/$defs/even"}}}
	case 5:
		doc["oneOf"] = L{M{"$ref": "#/$defs/low"}, M{"$ref": "#/$defs/even"}}
	}
	g, err := parse(doc)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
	v := g.Generate(o)
	if gaveUp(v) || ifFailed(v, 1) || failed(v, "oneOf", 1) {
		return
	}
	Check("as-if-inline", Valid(doc, doc, v), "a value does not conform to the referenced schemas")
}

// H_P17_objects: referenced objects keep their own references.
func H_P17_objects() {
	a := Int("a", 0, 3)
	doc := M{"$defs": M{
		"node": M{"type": "object", "properties": M{"v": M{"$ref": "#/$defs/num"}, "w": M{"$ref": "#/properties/q"}}, "required": L{"v", "w"}, "additionalProperties": false},
		"num":  M{"type": "integer", "minimum": a, "maximum": a},
	}, "type": "object", "properties": M{
		"q": M{"type": "null"},
		"p": M{"$ref": "#/$defs/node"},
		"r": M{"allOf": L{M{"$ref": "#/$defs/node"}, M{"properties": M{"w": M{}}}}},
	}, "required": L{"p", "q", "r"}, "additionalProperties": false}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	v := g.Generate(opts())
	Check("as-if-inline", Valid(doc, doc, v), "a value does not conform to the referenced schemas")
}

// H_P17_documents: a reference is relative to the document it stands in.
func H_P17_documents() {
	k := Int("k", 0, 9)
	want, other := string(JSON(M{"type": "integer", "minimum": k, "maximum": k})), `{"type":"boolean"}`
	FSCwd("/w")
	for _, f := range []string{"/w/b.json", "/w/sub/sub/b.json", "/w/sub/a/b.json", "/b.json"} {
		FSFile(f, other)
	}
	FSFile("/w/sub/b.json", want)
	FSFile("/w/sub/deep/c.json", `{"$ref":"../b.json"}`)
	second := []string{
		`{"$ref":"b.json"}`, `{"$defs":{"d":{"$ref":"b.json"}},"$ref":"#/$defs/d"}`, `{"$ref":"deep/c.json"}`,
		`{"allOf":[{"$ref":"b.json"}]}`, `{"$ref":"./../sub/b.json#"}`, `{"anyOf":[{"$ref":"b.json"}]}`,
	}
	FSFile("/w/sub/a.json", second[Choice("second document", len(second))])
	doc := M{"$defs": M{"b": M{"$ref": "b.json"}}}
	at := placeRef(doc, []string{"sub/a.json", "./sub/a.json#"}[Choice("reference", 2)], Choice("place", 10))
	parser := &chaff.ParserOptions{}
	parser.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
	parser.DocumentFetchOptions.FileSystemFetchOptions.AllowOutsideCwd = true
	g, err := chaff.ParseSchema(JSON(doc), parser)
	Check("accepted", clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	p := opts()
	p.MaximumOneOfAttempts, p.MaximumIfAttempts = 1, 1
	for _, v := range at(g.Generate(p)) {
		n, ok := asNum(v)
		Check("designated-schema", ok && n == float64(k), "a value of another document is generated")
	}
}

// H_P17_confusable: names that look alike in a pointer designate different schemas.
func H_P17_confusable() {
	ReverseMaps(Bool("reverse maps?"))
	one, other := M{"const": 1}, M{"const": 2}
	var doc M
	first, second := "", ""
	switch Choice("names", 6) {
	case 0:
		doc, first, second = M{"$defs": M{"a": one}, "definitions": M{"a": other}}, "#/$defs/a", "#/definitions/a"
	case 1:
		doc, first, second = M{"$defs": M{"a": M{"type": "object", "properties": M{"b": one}}, "a/properties/b": other}}, "#/$defs/a/properties/b", "#/$defs/a~1properties~1b"
	case 2:
		doc, first, second = M{"$defs": M{"a/b": one, "a~1b": other}}, "#/$defs/a~1b", "#/$defs/a~01b"
	case 3:
		doc, first, second = M{"$defs": M{"d": M{"properties": M{"a": M{"properties": M{"b": one}}, "a/properties/b": other}}}}, "#/$defs/d/properties/a/properties/b", "#/$defs/d/properties/a~1properties~1b"
	case 4:
		doc, first, second = M{"$defs": M{"a": one, "A": other}}, "#/$defs/a", "#/$defs/A"
	case 5:
		doc, first, second = M{"$defs": M{"a~": one, "a~0": other}}, "#/$defs/a~0", "#/$defs/a~00"
	}
	ref, want := first, 1.0
	if Bool("the second?") {
		ref, want = second, 2
	}
	at := placeRef(doc, ref, Choice("place", 10))
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 1, 1
	for _, v := range at(g.Generate(o)) {
		n, ok := asNum(v)
		Check("designated-schema", ok && n == want, "a value of another schema is generated for "+ref)
	}
}

// H_P17_judged: references that values are judged by are relative to the document they stand in, too.
func H_P17_judged() {
	FSCwd("/w")
	for _, f := range []string{"/w/c.json", "/w/d/d/c.json", "/c.json"} {
		FSFile(f, `{"const":9}`)
	}
	FSFile("/w/d/c.json", `{"enum":[1,2]}`)
	FSFile("/w/d/b.json", []string{`{"$ref":"c.json"}`, `{"allOf":[{"$ref":"c.json"}]}`, `{"anyOf":[{"$ref":"./c.json"},{"const":1}]}`}[Choice("document", 3)])
	FSFile("/w/k.json", `{"enum":[1,9]}`)
	FSFile("/w/d/k.json", `{"const":2}`)
	FSFile("/w/d/l.json", `{"anyOf":[{"maxItems":1,"items":{"$ref":"./n.json"}},{"maxItems":1,"items":{"$ref":"n.json"}}]}`)
	FSFile("/w/d/n.json", `{"enum":[2,9]}`)
	FSFile("/w/n.json", `{"const":1}`)
	ref := M{"$ref": "d/b.json"}
	kind := Choice("kind", 5)
	second := []M{
		{"enum": L{1, 2, 3}, "not": ref},
		{"oneOf": L{ref, M{"enum": L{2, 3}}}},
		{"enum": L{1, 2, 3}, "if": ref, "then": M{"const": 1}},
		{"type": "array", "items": M{"enum": L{1, 3}}, "contains": ref, "maxContains": 1, "minItems": 2, "maxItems": 3},
		{"type": "array", "minItems": 1, "items": M{"$ref": "k.json"}, "anyOf": L{M{"$ref": "d/l.json"}}},
	}[kind]
	first := M{"const": 1}
	if Bool("read before?") {
		first = ref
	}
	parser := &chaff.ParserOptions{}
	parser.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
	g, err := chaff.ParseSchema(JSON(M{"type": "array", "prefixItems": L{first, second}, "items": false, "minItems": 2}), parser)
	// (Which schemas can be negated is not of interest here)
	Check("accepted", kind == 0 || clean(g, err), "a valid reference is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 2, 2, 2
	l, _ := g.Generate(o).([]any)
	if len(l) != 2 {
		return
	}
	if kind == 3 {
		inner, _ := l[1].([]any)
		ones := 0
		for _, x := range inner {
			if n, ok := asNum(x); ok && n == 1 {
				ones++
			}
		}
		Check("designated-schema", ones <= 1, "items are judged by something else than what the pointer designates")
		return
	}
	if kind == 4 {
		Check("designated-schema", SameJSON(l[1], L{9}), "items follow something else than what the pointers designate")
		return
	}
	n, ok := asNum(l[1])
	Expect("generated")
	Cover("generated", ok)
	if ok {
		Check("designated-schema", n == 1 && kind != 0 || n == 3, "a value is judged by something else than what the pointer designates")
	}
}
