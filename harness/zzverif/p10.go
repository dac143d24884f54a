package zzverif

import "fmt"

// checkUnique: pairwise different apart from slots holding the warning text.
func checkUnique(v any, attempts int) {
	l, ok := v.([]any)
	Check("array", ok, "no array generated")
	if !ok {
		return
	}
	warning := fmt.Sprintf("Warning: Unable to generate unique item after %d attempts. Recheck passed schema.", attempts)
	for i := range l {
		if x, isStr := l[i].(string); isStr && x == warning {
			continue
		}
		for j := 0; j < i; j++ {
			Check("unique", !SameJSON(l[i], l[j]), "two elements are equal as JSON values")
		}
	}
}

// uniqueOf generates from a uniqueItems array of the given elements.
func uniqueOf(items M, maxItems, attempts int) {
	s := M{"type": "array", "uniqueItems": true, "items": items}
	s["minItems"] = Choice("minItems", maxItems+1)
	s["maxItems"] = maxItems
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a uniqueItems schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1 + Choice("attempts", attempts)
	checkUnique(generated(g, o), o.MaximumUniqueGeneratorAttempts)
}

// H_P10_scalars: element kinds with few values, so that retries run out.
func H_P10_scalars() {
	n := 3
	if Thorough() {
		n = 4
	}
	switch Choice("items", 3) {
	case 0:
		uniqueOf(M{"type": "boolean"}, n, 2)
	case 1:
		a := Int("minimum", -4, 4)
		uniqueOf(M{"type": "integer", "minimum": a, "maximum": a + 1}, n, 2)
	case 2:
		uniqueOf(M{"type": "number", "minimum": 0, "maximum": 1, "multipleOf": 0.5}, n, 2)
	}
}

// H_P10_mixed: elements of several kinds that look alike.
func H_P10_mixed() {
	uniqueOf(M{"enum": L{1, "1", L{1}}}, 3, 2)
}

// H_P10_structured: elements that are objects and arrays.
func H_P10_structured() {
	n := 2
	if Thorough() {
		n = 3
	}
	switch Choice("items", 2) {
	case 0:
		uniqueOf(M{"type": "object", "properties": M{"a": M{"type": "boolean"}}, "required": L{"a"}, "additionalProperties": false}, n, 2)
	case 1:
		uniqueOf(M{"type": "array", "items": M{"type": "boolean"}, "maxItems": 1}, n, 2)
	}
}

// H_P10_prefix: prefix and contains elements are part of the comparison.
func H_P10_prefix() {
	s := M{"type": "array", "uniqueItems": true}
	switch Choice("kind", 3) {
	case 0:
		s["prefixItems"] = L{M{"type": "boolean"}, M{"enum": L{true, 1}}}
		s["items"] = M{"type": "boolean"}
	case 1:
		s["contains"] = M{"type": "integer", "minimum": 1, "maximum": 2}
		s["minContains"] = 2
		s["items"] = M{"type": "integer", "minimum": 1, "maximum": 3}
	case 2:
		s["prefixItems"] = L{M{"enum": L{1, 2}}}
		s["contains"] = M{"enum": L{1, 2}}
		s["items"] = M{"enum": L{1, 2, 3}}
	}
	s["maxItems"] = 3
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1 + Choice("attempts", 2)
	checkUnique(generated(g, o), o.MaximumUniqueGeneratorAttempts)
}

// H_P10_attempts: a slot costs at most the configured attempts, each of which
// draws once here, and no slot is given up before them.
func H_P10_attempts() {
	s := M{"type": "array", "uniqueItems": true, "prefixItems": L{M{"const": "a"}, M{"const": "b"}}, "items": M{"enum": L{"a", "b"}}, "minItems": 3, "maxItems": 3}
	if Bool("third value?") {
		s["items"] = M{"enum": L{"a", "b", "c", "c"}}
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1 + Choice("attempts", size(4, 6))
	before := Draws()
	l, _ := g.Generate(o).([]any)
	made := Draws() - before
	Check("length", len(l) == 3, "wrong number of elements")
	Check("within-attempts", made <= 1+o.MaximumUniqueGeneratorAttempts, "more draws than attempts (and one for the length)")
	if len(l) == 3 && l[2] != any("c") {
		Check("all-attempts", made >= o.MaximumUniqueGeneratorAttempts, "a slot is given up before the attempts have been made")
	}
}

// H_P10_effort: a hopeless uniqueItems stops after the configured attempts.
func H_P10_effort() {
	s := M{"type": "array", "uniqueItems": true, "items": M{"const": 1}, "minItems": 2, "maxItems": 2}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = Int("attempts", 1, 30)
	l, _ := g.Generate(o).([]any)
	Check("length", len(l) == 2, "wrong number of elements")
	if len(l) == 2 {
		want := fmt.Sprintf("Warning: Unable to generate unique item after %d attempts. Recheck passed schema.", o.MaximumUniqueGeneratorAttempts)
		x, isStr := l[1].(string)
		Check("marked", isStr && x == want, "a hopeless slot is not marked")
	}
}

// H_P10_plain: without uniqueItems (or with false) duplicates are free, and
// an unconstrained unique array is fine.
func H_P10_plain() {
	s := M{"type": "array", "minItems": 2, "maxItems": 3, "uniqueItems": Bool("uniqueItems")}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a plain array is rejected")
	if !ok {
		return
	}
	l, _ := generated(g, opts()).([]any)
	Check("length", len(l) >= 2 && len(l) <= 3, "wrong number of elements")
}
