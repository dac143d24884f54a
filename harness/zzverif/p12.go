package zzverif

import "fmt"

// branchPair draws two or three branches, some overlapping.
func branchPair() L {
	switch Choice("branches", 8) {
	case 0:
		a := Int("a", 0, 4)
		return L{M{"type": "integer", "minimum": 0, "maximum": 3}, M{"type": "integer", "minimum": a, "maximum": 6}}
	case 1:
		return L{M{"type": "boolean"}, M{"type": "integer", "minimum": 1, "maximum": 2}}
	case 2:
		return L{M{"type": "integer", "minimum": 0, "maximum": 6, "multipleOf": 2}, M{"type": "integer", "minimum": 0, "maximum": 6, "multipleOf": 3}}
	case 3:
		return L{M{"enum": L{1, 2, "x"}}, M{"enum": L{2, 3}}, M{"const": 3}}
	case 4:
		return L{M{"type": "integer", "minimum": 1, "maximum": 1}, M{"type": "number", "minimum": 1, "maximum": 1}}
	case 5:
		return L{M{"type": "object", "properties": M{"a": M{"const": 1}}, "required": L{"a"}, "additionalProperties": false}, M{"type": "object", "properties": M{"b": M{"const": 2}}, "required": L{"b"}, "additionalProperties": false}}
	case 6:
		return L{M{"type": "null"}, M{"type": L{"null", "boolean"}}}
	}
	return L{M{"type": "array", "items": M{"const": 1}, "maxItems": 2}, M{"type": "array", "items": M{"const": 2}, "maxItems": 2}}
}

func failed(v any, kind string, attempts int) bool {
	t, ok := v.(string)
	return ok && t == fmt.Sprintf("Failed to generate a valid value for the following %s constraint after %d attempts", kind, attempts)
}

func matches(root any, branches L, v any) int {
	n := 0
	for _, b := range branches {
		if Valid(root, b, v) {
			n++
		}
	}
	return n
}

// H_P12_oneof: a value matches exactly one branch or is the failure text.
func H_P12_oneof() {
	l := branchPair()
	s := M{"oneOf": l}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts = 1 + Choice("attempts", 2)
	o.DefaultArrayMaxItems = 2
	v := g.Generate(o)
	if failed(v, "oneOf", o.MaximumOneOfAttempts) {
		return
	}
	Check("exactly-one", matches(s, l, v) == 1, "a value matching no branch or several ones is returned")
}

// H_P12_beside: the keywords next to oneOf hold too.
func H_P12_beside() {
	var s M
	switch Choice("schema", 6) {
	case 0:
		s = M{"type": "integer", "minimum": Int("minimum", 0, 6), "maximum": 6, "oneOf": L{M{"multipleOf": 2}, M{"multipleOf": 3}}}
	case 1:
		s = M{"type": "string", "oneOf": L{M{"type": "integer"}, M{"maxLength": 3}}}
	case 2:
		s = M{"type": "object", "properties": M{"a": M{"type": "integer", "minimum": 0, "maximum": 2}}, "oneOf": L{M{"required": L{"a"}}, M{"maxProperties": 0}}, "additionalProperties": false}
	case 3:
		s = M{"enum": L{1, 2, 3}, "oneOf": L{M{"maximum": 2}, M{"minimum": 2}}}
	case 4:
		s = M{"type": L{"integer", "null"}, "maximum": 3, "oneOf": L{M{"type": "null"}, M{"minimum": 1, "type": "integer"}}}
	case 5:
		s = M{"oneOf": L{M{"const": 1}}, "type": L{"integer", "string"}}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts = 1 + Choice("attempts", 2)
	v := g.Generate(o)
	if failed(v, "oneOf", o.MaximumOneOfAttempts) {
		return
	}
	Check("exactly-one", matches(s, s["oneOf"].(L), v) == 1, "a value matching no branch or several ones is returned")
	Check("surroundings", Valid(s, s, v), "a value violates the keywords next to oneOf")
}

// H_P12_nested: oneOf inside objects, arrays and other combinations.
func H_P12_nested() {
	in := M{"oneOf": L{M{"type": "integer", "minimum": 0, "maximum": 2}, M{"type": "integer", "minimum": 2, "maximum": 3}}}
	o := opts()
	o.MaximumOneOfAttempts = 1
	if Thorough() {
		o.MaximumOneOfAttempts = 1 + Choice("attempts", 2)
	}
	bad := func(s any, v any) {
		if !failed(v, "oneOf", o.MaximumOneOfAttempts) {
			Check("exactly-one", matches(s, in["oneOf"].(L), v) == 1, "a value matching no branch or several ones is returned")
		}
	}
	switch Choice("place", 4) {
	case 0:
		s := M{"type": "object", "properties": M{"p": in}, "required": L{"p"}, "additionalProperties": false}
		g, err := parse(s)
		if clean(g, err) {
			ob, _ := g.Generate(o).(map[string]any)
			bad(s, ob["p"])
		}
	case 1:
		s := M{"type": "array", "items": in, "minItems": 1, "maxItems": 2}
		g, err := parse(s)
		if clean(g, err) {
			l, _ := g.Generate(o).([]any)
			for _, x := range l {
				bad(s, x)
			}
		}
	case 2:
		s := M{"oneOf": L{in, M{"type": "null"}}}
		g, err := parse(s)
		if clean(g, err) {
			v := g.Generate(o)
			if !failed(v, "oneOf", o.MaximumOneOfAttempts) {
				Check("exactly-one", matches(s, s["oneOf"].(L), v) == 1, "a value matching no branch or several ones is returned")
			}
		}
	case 3:
		s := M{"$ref": "#/$defs/d", "$defs": M{"d": in}}
		g, err := parse(s)
		if clean(g, err) {
			bad(s, g.Generate(o))
		}
	}
}

// H_P12_references: references anywhere inside of the branches mean what they mean in the document.
func H_P12_references() {
	k := Int("k", 1, 8)
	r := M{"$ref": "#/$defs/d"}
	if Bool("by identifier?") {
		r = M{"$ref": "named"}
	}
	var branch, other M
	switch Choice("inside", 8) {
	case 0:
		branch, other = M{"type": "array", "items": r, "minItems": 1, "maxItems": 1}, M{"type": "array", "items": M{"type": "integer", "minimum": 4, "maximum": 9}, "minItems": 1, "maxItems": 1}
	case 1:
		branch, other = M{"type": "array", "prefixItems": L{r}, "items": false}, M{"type": "array", "prefixItems": L{M{"type": "integer", "minimum": 4, "maximum": 9}}, "items": false}
	case 2:
		branch, other = M{"type": "array", "items": L{r}, "additionalItems": false}, M{"type": "array", "items": L{M{"type": "integer", "minimum": 4, "maximum": 9}}, "additionalItems": false}
	case 3:
		branch, other = M{"type": "object", "properties": M{"p": r}, "required": L{"p"}, "additionalProperties": false}, M{"type": "object", "properties": M{"p": M{"type": "integer", "minimum": 4, "maximum": 9}}, "required": L{"p"}, "additionalProperties": false}
	case 4:
		branch, other = M{"type": "object", "properties": M{}, "additionalProperties": r, "minProperties": 1, "maxProperties": 1}, M{"type": "object", "additionalProperties": M{"type": "integer", "minimum": 4, "maximum": 9}, "minProperties": 1, "maxProperties": 1}
	case 5:
		branch, other = M{"anyOf": L{r, M{"type": "null"}}}, M{"type": "integer", "minimum": 4, "maximum": 9}
	case 6:
		branch, other = M{"type": "integer", "minimum": 0, "maximum": 9, "if": r, "then": M{"maximum": 0}}, M{"type": "integer", "minimum": 4, "maximum": 9}
	case 7:
		branch, other = M{"type": "array", "contains": r, "maxItems": 2}, M{"type": "array", "items": M{"type": "integer", "minimum": 4, "maximum": 9}, "minItems": 1, "maxItems": 1}
	}
	l := L{branch, other}
	d := M{"type": "integer", "minimum": 0, "maximum": k}
	s := M{"oneOf": l, "$defs": M{"d": d, "e": M{"$id": "named", "type": "integer", "minimum": 0, "maximum": k}}}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a reference inside of a branch is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts = 1, 1
	o.DefaultArrayMaxItems = 1
	v := g.Generate(o)
	if failed(v, "oneOf", 1) {
		return
	}
	// the judge resolves pointers only
	r["$ref"] = "#/$defs/d"
	Check("exactly-one", matches(s, l, v) == 1, "a value matching no branch or several ones is returned")
}

// H_P12_hopeless: the failure text stands in when nothing can qualify.
func H_P12_hopeless() {
	s := M{"oneOf": L{M{"const": 1}, M{"enum": L{1}}}}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts = Int("attempts", 1, 5)
	v := g.Generate(o)
	Check("failure-text", failed(v, "oneOf", o.MaximumOneOfAttempts), "a value matching several branches is returned")
}

// H_P12_formats: branches told apart by their formats.
func H_P12_formats() {
	f := []string{"email", "ipv4", "ipv6", "uuid", "date", "date-time", "time"}
	a, b := f[Choice("first", len(f))], f[Choice("second", len(f))]
	l := L{M{"format": a}, M{"format": b}}
	if Bool("third?") {
		l = append(l, M{"maxLength": 0})
	}
	s := M{"type": "string", "oneOf": l}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts = 1
	v := g.Generate(o)
	if failed(v, "oneOf", 1) {
		return
	}
	if a != b {
		Expect("branch of a format")
		Cover("branch of a format", true)
	}
	Check("exactly-one", matches(s, l, v) == 1, "a text matching no format or several ones is returned")
}

// H_P12_alike: properties whose names look alike have their own branches.
func H_P12_alike() {
	pair := func(k int) M {
		return M{"type": "integer", "minimum": 0, "maximum": 3, "oneOf": L{M{"maximum": k}, M{"minimum": 1}}}
	}
	alike(pair(1), pair(2), func(v any) bool { return failed(v, "oneOf", 1) })
}
