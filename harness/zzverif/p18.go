package zzverif

import (
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// nest returns the number of containers nested in each other.
func nest(v any) int {
	deepest := 0
	switch t := v.(type) {
	case map[string]any:
		for _, x := range t {
			if n := nest(x); n > deepest {
				deepest = n
			}
		}
		return deepest + 1
	case []any:
		for _, x := range t {
			if n := nest(x); n > deepest {
				deepest = n
			}
		}
		return deepest + 1
	}
	return 0
}

// cutText recognises the two documented texts standing in for a part that is cut off.
func cutText(v any) (cyclic, tooDeep bool) {
	t, ok := v.(string)
	return ok && strings.HasPrefix(t, "Cyclic reference found: "), ok && strings.HasPrefix(t, "Maximum reference resolution depth of ")
}

// checkCuts: every leaf is the one the schema lists or the text that fits the options.
func checkCuts(v any, bypass bool, allowNull bool) {
	switch t := v.(type) {
	case map[string]any:
		for _, x := range t {
			checkCuts(x, bypass, allowNull)
		}
	case []any:
		for _, x := range t {
			checkCuts(x, bypass, allowNull)
		}
	default:
		cyclic, tooDeep := cutText(v)
		Check("marker", (allowNull && (v == nil || failed(v, "oneOf", 1))) || (cyclic && !bypass) || tooDeep, "a part that is cut off is not marked as such")
	}
}

// recursive returns a schema whose references lead back to themselves, the number of distinct
// references on the way round and whether a null may end the recursion.
func recursive(form int) (doc M, distinct int, allowNull bool) {
	d := M{"$ref": "#/$defs/d"}
	object := func(props M, required ...any) M {
		return M{"type": "object", "properties": props, "required": L(required), "additionalProperties": false}
	}
	list := func(item M, most int) M {
		return M{"type": "array", "items": item, "minItems": 1, "maxItems": most}
	}
	switch form {
	case 0:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": object(M{"n": d}, "n")}}, 1, false
	case 1:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": object(M{"n": M{"$ref": "#/$defs/e"}}, "n"), "e": object(M{"n": d}, "n")}}, 2, false
	case 2:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": list(d, 1)}}, 1, false
	case 3:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": M{"type": "array", "prefixItems": L{d, d}, "items": false, "minItems": 2, "maxItems": 2}}}, 1, false
	case 4:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": M{"type": "object", "additionalProperties": d, "minProperties": 1, "maxProperties": 1}}}, 1, false
	case 5:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": object(M{"n": M{"oneOf": L{M{"type": "null"}, M{"type": "object", "properties": M{"m": d}, "required": L{"m"}, "additionalProperties": false}}}}, "n")}}, 2, true
	case 6:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": object(M{"n": d, "m": d}, "n", "m")}}, 1, false
	case 7:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": object(M{"n": d, "m": d}, "n")}}, 1, false
	case 8:
		return M{"$ref": "#/$defs/d", "$defs": M{"d": M{"$ref": "#/$defs/e"}, "e": list(d, 1)}}, 1, false
	}
	return M{"$ref": "#/$defs/d", "$defs": M{"d": M{"type": "object", "patternProperties": M{"^a$": d}, "additionalProperties": false, "required": L{"a"}, "maxProperties": 1}}}, 1, false
}

// H_P18_generate: nested expansions stay within the limit and end in the documented texts.
func H_P18_generate() {
	form := Choice("form", 10)
	doc, distinct, allowNull := recursive(form)
	deepest := size(3, 5)
	if form == 5 || form == 7 || form == 6 {
		deepest = size(1, 2)
	}
	most := Int("maximumDepth", 1, deepest)
	bypass := SymBool("bypass")
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a recursive schema is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumReferenceDepth = most
	o.BypassCyclicReferenceCheck = bypass
	o.MaximumOneOfAttempts = 1
	for call := 0; call < 2; call++ {
		v := g.Generate(o)
		n := nest(v)
		if bypass {
			limit := most + 1
			if form == 5 {
				limit = 2 * (most + 1)
			}
			Check("within-maximum-depth", n <= limit, "references are expanded more deeply than the maximum depth")
		} else {
			Check("no-reentry", n <= distinct, "a reference is entered again while it is being expanded")
		}
		checkCuts(v, bypass, allowNull)
		if form == 3 || form == 6 {
			// Both siblings refer to the same thing, so the second may not be cut off any earlier than the first
			var a, b any
			if l, ok := v.([]any); ok && len(l) == 2 {
				a, b = l[0], l[1]
			} else if m, ok := v.(map[string]any); ok {
				a, b = m["n"], m["m"]
			}
			Check("siblings-alike", nest(a) == nest(b), "an expansion that ended still counts for its siblings")
		}
	}
}

// circular returns schemas whose compositions lead back to themselves.
func circular(form int) M {
	root := M{"$ref": "#"}
	a, b := M{"$ref": "#/$defs/a"}, M{"$ref": "#/$defs/b"}
	switch form {
	case 0:
		return root
	case 1:
		return M{"allOf": L{root}}
	case 2:
		return M{"anyOf": L{root, root}}
	case 3:
		return M{"oneOf": L{root, M{"type": "null"}}}
	case 4:
		return M{"not": root}
	case 5:
		return M{"if": root, "then": root, "else": root}
	case 6:
		return M{"allOf": L{a}, "$defs": M{"a": b, "b": a}}
	case 7:
		return M{"allOf": L{a}, "$defs": M{"a": M{"allOf": L{b}}, "b": M{"allOf": L{a}}}}
	case 8:
		return M{"type": "object", "properties": M{"a": root}, "not": root}
	case 9:
		return M{"properties": M{"a": M{"allOf": L{root}}, "b": M{"anyOf": L{root}}}, "required": L{"a"}}
	case 10:
		return M{"not": M{"not": root}}
	case 11:
		return M{"anyOf": L{a, b}, "$defs": M{"a": M{"oneOf": L{b}}, "b": M{"anyOf": L{a}}}}
	case 12:
		return M{"items": M{"allOf": L{root}}, "minItems": 1, "maxItems": 1}
	case 13:
		return M{"contains": root, "minItems": 1, "maxItems": 1}
	case 14:
		return M{"$defs": M{"a": M{"not": a}}, "$ref": "#/$defs/a"}
	case 15:
		return M{"$id": "x", "$ref": "x"}
	case 16:
		return M{"$defs": M{"a": M{"allOf": L{M{"if": a, "then": M{"type": "null"}}, b}}, "b": M{"not": M{"allOf": L{b}}}}, "allOf": L{a, b}}
	}
	return M{"prefixItems": L{root, M{"allOf": L{root}}}, "minItems": 2, "items": false}
}

// H_P18_circular: compositions leading back to themselves are parsed and generated from in finite time.
func H_P18_circular() {
	doc := circular(Choice("form", 18))
	o := &chaff.ParserOptions{}
	o.MaxParseDepth = Int("maxParseDepth", 0, 6)
	g, err := chaff.ParseSchema(JSON(doc), o)
	if err != nil {
		return
	}
	Check("parse-depth-balanced", g.Metadata.ParseDepth == 0, "the parse depth is not restored")
	p := opts()
	p.MaximumOneOfAttempts, p.MaximumIfAttempts, p.MaximumUniqueGeneratorAttempts = 1, 1, 1
	p.MaximumReferenceDepth = 2
	p.DefaultArrayMaxItems, p.DefaultObjectMaxProperties, p.DefaultStringMaxLength = 1, 1, 1
	p.MaximumGenerationSteps, p.CutoffGenerationSteps = 5, 10
	p.BypassCyclicReferenceCheck = SymBool("bypass")
	g.Generate(p)
}

// merged returns schemas of which merging expands references over and over.
func merged(form int) M {
	root, null := M{"$ref": "#"}, M{"type": "null"}
	a := M{"$ref": "#/$defs/a"}
	switch form {
	case 0:
		return M{"anyOf": L{M{"allOf": L{root, null}}, M{"allOf": L{root, null}}}}
	case 1:
		return M{"if": null, "then": M{"allOf": L{root, null}}, "else": M{"allOf": L{root, null}}, "type": "null"}
	case 2:
		return M{"patternProperties": M{"^c": M{"oneOf": L{M{"contains": root, "items": root}}}}}
	case 3:
		return M{"properties": M{"a": M{"properties": M{"a": root}}}, "anyOf": L{M{"properties": M{"a": root}}}}
	case 4:
		return M{"items": M{"oneOf": L{M{}, M{}}}, "allOf": L{M{"not": root}}}
	case 5:
		return M{"not": M{"allOf": L{root}, "anyOf": L{M{}, M{}}}}
	case 6:
		return M{"additionalProperties": M{"anyOf": L{M{}, M{}}}, "not": root}
	case 7:
		return M{"prefixItems": L{M{"allOf": L{M{"allOf": L{root}}, M{"prefixItems": L{root}}}}}}
	case 8:
		return M{"oneOf": L{M{"oneOf": L{M{"items": M{}, "anyOf": L{M{}, M{}}}}, "items": a}}, "$defs": M{"a": root}}
	case 9:
		return M{"oneOf": L{M{}, M{"not": M{"not": root}}}, "contains": root}
	case 10:
		return M{"properties": M{"l": M{"allOf": L{root, M{"required": L{"r"}}}}, "r": M{"allOf": L{root, M{"required": L{"l"}}}}}, "type": "object"}
	case 11:
		return M{"$defs": M{"a": M{"type": "array", "items": M{"anyOf": L{a, null}}, "contains": M{"oneOf": L{a, null}}}}, "allOf": L{a, M{"items": M{"allOf": L{a}}}}}
	case 12:
		return M{"properties": M{"a": M{"anyOf": L{root, root}}, "b": M{"anyOf": L{root, null}}}, "additionalProperties": root, "anyOf": L{M{"additionalProperties": root}, M{"properties": M{"a": root, "b": root}}}}
	}
	return M{"if": M{"type": "object"}, "then": M{"properties": M{"a": root, "b": root}}, "else": root, "properties": M{"a": M{"if": null, "then": root}, "b": root}}
}

// H_P18_merged: merging references again and again takes no time without end.
func H_P18_merged() {
	g, err := chaff.ParseSchema(JSON(merged(Choice("form", 14))), &chaff.ParserOptions{MaxParseDepth: []int{0, 30}[Choice("maxParseDepth", 2)]})
	if err != nil {
		return
	}
	Check("parse-depth-balanced", g.Metadata.ParseDepth == 0, "the parse depth is not restored")
}

// H_P18_depth: schemas nested beyond the parse depth are rejected and all others are not.
func H_P18_depth() {
	most := Int("maxParseDepth", 1, 5)
	levels := Choice("levels", 7)
	kind := Choice("kind", 5)
	doc := M{"type": "null"}
	for i := 0; i < levels; i++ {
		switch kind {
		case 0:
			doc = M{"type": "array", "items": doc}
		case 1:
			doc = M{"type": "object", "properties": M{"a": doc}}
		case 2:
			doc = M{"type": "object", "additionalProperties": doc}
		case 3:
			doc = M{"type": "array", "prefixItems": L{doc}}
		case 4:
			doc = M{"type": "object", "patternProperties": M{"^a$": doc}}
		}
	}
	o := &chaff.ParserOptions{}
	o.MaxParseDepth = most
	g, err := chaff.ParseSchema(JSON(doc), o)
	Check("parse-depth-limit", clean(g, err) == (levels+1 <= most), "the parse depth differs from the configured one")
}

// H_P18_ended: whatever an expansion ends with, it does not count for what follows it.
func H_P18_ended() {
	none := L{M{"type": "null"}, M{"const": false}, M{"const": ""}, M{"type": "array", "maxItems": 0}, M{"type": "object", "additionalProperties": false}, M{"oneOf": L{M{"const": 1}, M{"const": 1}}}, M{"$ref": "#/$defs/inner"}}[Choice("ends with", 7)]
	r := M{"$ref": "#/$defs/d"}
	doc := M{"$defs": M{"d": none, "inner": M{"type": "null"}}}
	switch Choice("followed by", 3) {
	case 0:
		doc["type"], doc["prefixItems"], doc["items"], doc["minItems"] = "array", L{r, r, r}, false, 3
	case 1:
		doc["type"], doc["items"], doc["minItems"], doc["maxItems"] = "array", r, 3, 3
	case 2:
		doc["type"], doc["properties"], doc["required"], doc["additionalProperties"] = "object", M{"a": r, "b": r, "c": r}, L{"a", "b", "c"}, false
	}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "a schema is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumReferenceDepth = Int("maximumDepth", 2, 3)
	o.BypassCyclicReferenceCheck = SymBool("bypass")
	o.MaximumOneOfAttempts = 1
	var leaves func(v any)
	leaves = func(v any) {
		switch t := v.(type) {
		case map[string]any:
			for _, x := range t {
				leaves(x)
			}
		case []any:
			for _, x := range t {
				leaves(x)
			}
		default:
			cyclic, tooDeep := cutText(v)
			Check("not-cut-off", !cyclic && !tooDeep, "an expansion that ended counts for what follows it")
		}
	}
	leaves(g.Generate(o))
}
