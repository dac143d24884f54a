package zzverif

import "regexp"

// countSchema draws minProperties and maxProperties, each present or absent.
func countSchema(s M, lo, hi int) (min, max int) {
	min, max = 0, 1<<30
	if Bool("minProperties?") {
		min = Int("minProperties", lo, hi)
		s["minProperties"] = min
	}
	if Bool("maxProperties?") {
		max = Int("maxProperties", lo, hi)
		s["maxProperties"] = max
	}
	return
}

func declaredOrMatching(s M, k string) bool {
	props, _ := s["properties"].(M)
	if _, ok := props[k]; ok {
		return true
	}
	pats, _ := s["patternProperties"].(M)
	for p := range pats {
		if regexp.MustCompile(p).MatchString(k) {
			return true
		}
	}
	return false
}

func checkCounts(s M, v any, min, max int, lower bool) {
	o, ok := v.(map[string]any)
	Check("object", ok, "no object generated")
	if !ok {
		return
	}
	n := len(o)
	if lower {
		Check("min-properties", n >= min, "fewer keys than minProperties")
	}
	Check("max-properties", n <= max, "more keys than maxProperties")
	extra, has := s["additionalProperties"]
	if !has {
		return
	}
	for k, x := range o {
		if declaredOrMatching(s, k) {
			continue
		}
		if b, isBool := extra.(bool); isBool {
			Check("closed", b, "a key that is neither declared nor matches a pattern")
			continue
		}
		Check("extra-value", Valid(s, extra, x), "an extra value violates additionalProperties")
	}
}

// H_P07_counts: counts with declared, required and additional properties.
func H_P07_counts() {
	s := M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}}
	nreq := Choice("required", 3)
	s["required"] = L{"a", "b"}[:nreq]
	closed := false
	switch Choice("additionalProperties", 4) {
	case 1:
		s["additionalProperties"] = false
		closed = true
	case 3: // without any pattern there are no other names
		s["additionalProperties"] = false
		s["patternProperties"] = M{}
		closed = true
	case 2:
		s["additionalProperties"] = M{"type": "integer", "minimum": 5, "maximum": 6}
	}
	min, max := countSchema(s, 0, 4)
	g, err := parse(s)
	ok := clean(g, err)
	if min > max || nreq > max || (closed && min > 2) {
		Check("contradictory-rejected", !ok, "contradictory property counts are accepted")
		return
	}
	Check("consistent-accepted", ok, "satisfiable property counts are rejected")
	if !ok {
		return
	}
	checkCounts(s, generated(g, opts()), min, max, true)
}

// H_P07_bare: no declared properties at all.
func H_P07_bare() {
	s := M{"type": "object"}
	if Bool("additional?") {
		s["additionalProperties"] = M{"type": "boolean"}
	}
	min, max := countSchema(s, 0, 14)
	Assume(min <= max)
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "satisfiable property counts are rejected")
	if !ok {
		return
	}
	checkCounts(s, generated(g, opts()), min, max, true)
}

// H_P07_negative: negative counts are errors.
func H_P07_negative() {
	s := M{"type": "object"}
	if Bool("properties?") {
		s["properties"] = M{"a": M{"const": 1}}
	}
	min, max := countSchema(s, -9, 9)
	Assume(min < 0 || max < 0)
	g, err := parse(s)
	Check("negative-rejected", !clean(g, err), "a negative count is accepted")
}

// H_P07_patterns: names come from patterns.
func H_P07_patterns() {
	s := M{"type": "object"}
	switch Choice("patterns", 3) {
	case 0:
		s["patternProperties"] = M{"^x[0-9]$": M{"type": "integer", "minimum": 1, "maximum": 2}}
	case 1:
		s["patternProperties"] = M{"^(a|b)$": M{"type": "boolean"}}
	case 2:
		s["patternProperties"] = M{"^k$": M{"const": 1}, "^l[ab]$": M{"const": 2}}
	}
	if Bool("declared?") {
		s["properties"] = M{"a": M{"type": "boolean"}, "q": M{"const": 0}}
	}
	switch Choice("additionalProperties", 3) {
	case 1:
		s["additionalProperties"] = false
	case 2:
		s["additionalProperties"] = M{"type": "string"}
	}
	min, max := countSchema(s, 0, 2)
	Assume(min <= max)
	closed := s["additionalProperties"] == any(false)
	// a closed object may run out of names
	Assume(!closed || min <= 1)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties = 3
	checkCounts(s, generated(g, o), min, max, true)
}

// H_P07_overlaps: names that match several patterns conform to each of them.
func H_P07_overlaps() {
	s := M{"type": "object"}
	max := 0
	c := Choice("patterns", 3)
	switch c {
	case 0:
		s["patternProperties"] = M{"^[ab]$": M{"enum": L{1, 2}}, "^b$": M{"enum": L{2, 3}}}
		max = size(3, 4)
		if Bool("required?") {
			s["required"] = L{"b"}
		}
		if Bool("closed?") {
			s["additionalProperties"] = false
		}
	case 1:
		s["patternProperties"] = M{"^ab?$": M{"const": 1}, "b$": M{"type": "integer", "minimum": 2, "maximum": 3}}
		max = 3
	case 2:
		s["patternProperties"] = M{"": M{"const": 5}}
		s["minProperties"] = Choice("minProperties", 3)
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties = max
	v, _ := generated(g, o).(map[string]any)
	checkCounts(s, v, 0, 1<<30, false)
	pats := s["patternProperties"].(M)
	for k, x := range v {
		for p, sub := range pats {
			if regexp.MustCompile(p).MatchString(k) {
				Check([]string{"every-pattern-a", "every-pattern-b", "every-pattern-c"}[c], Valid(s, sub, x), "a value violates the schema of a pattern its name matches")
			}
		}
	}
}

// H_P07_required: required keys that are not declared.
func H_P07_required() {
	s := M{"type": "object", "properties": M{"a": M{"const": 1}}, "required": L{"zz"}}
	closed := false
	switch Choice("additionalProperties", 4) {
	case 0:
		s["additionalProperties"] = false
		closed = true
	case 3:
		s["additionalProperties"] = false
		s["patternProperties"] = M{"^y": M{"type": "null"}}
		closed = true
	case 1:
		s["additionalProperties"] = M{"type": "integer"}
	}
	g, err := parse(s)
	ok := clean(g, err)
	if closed {
		Check("contradictory-rejected", !ok, "a closed object requiring an undeclared key is accepted")
		return
	}
	Check("consistent-accepted", ok, "a satisfiable object is rejected")
	if ok {
		checkCounts(s, generated(g, opts()), 0, 1<<30, true)
	}
}

// H_P07_options: configured defaults never override the schema.
func H_P07_options() {
	s := M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}}
	switch Choice("additionalProperties", 3) {
	case 0:
		s["additionalProperties"] = false
	case 1:
		s["additionalProperties"] = M{"type": "integer"}
	}
	min, max := countSchema(s, 0, 2)
	Assume(min <= max)
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMinProperties = Int("DefaultObjectMinProperties", 0, 4)
	o.DefaultObjectMaxProperties = Int("DefaultObjectMaxProperties", 0, 6)
	Assume(o.DefaultObjectMinProperties <= o.DefaultObjectMaxProperties)
	checkCounts(s, generated(g, o), min, max, true)
}
