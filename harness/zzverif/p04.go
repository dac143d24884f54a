package zzverif

import "unicode/utf8"

// H_P04_lengths: both length keywords, each present or absent, zero included.
func H_P04_lengths() {
	hi := 60
	if Thorough() {
		hi = 300
	}
	s := M{"type": "string"}
	min, max := 0, 1<<30
	if Bool("minLength?") {
		min = Int("minLength", 0, hi)
		s["minLength"] = min
	}
	if Bool("maxLength?") {
		max = Int("maxLength", 0, hi)
		s["maxLength"] = max
	}
	g, err := parse(s)
	ok := clean(g, err)
	Observe("accepted", ok)
	if min > max {
		Check("contradictory-length-rejected", !ok, "minLength > maxLength is accepted")
		return
	}
	Check("consistent-length-accepted", ok, "satisfiable lengths are rejected")
	if !ok {
		return
	}
	v, isStr := g.Generate(opts()).(string)
	Check("string", isStr, "no string generated")
	if isStr {
		n := utf8.RuneCountInString(v)
		Check("min-length", n >= min, "string shorter than minLength")
		Check("max-length", n <= max, "string longer than maxLength")
	}
}

// H_P04_negative: negative lengths are errors.
func H_P04_negative() {
	s := M{"type": "string"}
	a, b := Int("minLength", -40, 40), Int("maxLength", -40, 40)
	if Bool("minLength?") {
		s["minLength"] = a
	} else {
		a = 0
	}
	if Bool("maxLength?") {
		s["maxLength"] = b
	} else {
		b = 0
	}
	Assume(a < 0 || b < 0)
	g, err := parse(s)
	Check("negative-length-rejected", !clean(g, err), "a negative length is accepted")
}

// H_P04_nested: the same for strings inside objects and arrays.
func H_P04_nested() {
	max := Int("maxLength", 0, 30)
	min := Int("minLength", 0, 30)
	Assume(min <= max)
	str := M{"type": "string", "minLength": min, "maxLength": max}
	doc := M{"type": "object", "properties": M{"a": str, "b": M{"type": "array", "items": str, "minItems": 1, "maxItems": 2}}, "required": L{"a", "b"}}
	g, err := parse(doc)
	if !clean(g, err) {
		return
	}
	v := g.Generate(opts())
	Check("nested-lengths", Valid(doc, doc, v), "a nested string violates its lengths")
}

// H_P04_long: long texts are made of as many sentences as it takes.
func H_P04_long() {
	min := 2500 // more than any few sentences make
	if Bool("shorter?") {
		min = Int("minLength", 0, size(800, 2000))
	}
	more := Int("more", 0, 3)
	s := M{"type": "string", "minLength": min}
	if Bool("maxLength?") {
		s["maxLength"] = min + more
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "satisfiable lengths are rejected")
	v, _ := g.Generate(opts()).(string)
	n := utf8.RuneCountInString(v)
	Check("min-length", n >= min, "string shorter than minLength")
	_, limited := s["maxLength"]
	Check("max-length", !limited || n <= min+more, "string longer than maxLength")
}
