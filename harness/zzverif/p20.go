package zzverif

import (
	"regexp/syntax"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/internal/regen"
)

// pick returns the configured value or the documented default.
func orDefault(n, def int) int {
	if n == 0 {
		return def
	}
	return n
}

// H_P20_array: item limits the schema leaves open.
func H_P20_array() {
	lo, hi := Int("defaultMin", 0, 4), Int("defaultMax", 0, 5)
	Assume(hi == 0 || lo <= hi)
	Assume(hi > 0 || lo <= 2)
	g, err := parse(M{"type": "array", "items": M{"type": "null"}})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultArrayMinItems, o.DefaultArrayMaxItems = lo, hi
	o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties = 5, 5
	Expect("more than the fewest")
	for call := 0; call < 2; call++ {
		l, ok := g.Generate(o).([]any)
		Check("array-minimum", ok && len(l) >= lo, "fewer items than the default minimum")
		Check("array-maximum", ok && len(l) <= orDefault(hi, 10), "more items than the default maximum")
		Cover("more than the fewest", len(l) > lo)
	}
}

// H_P20_object: property limits the schema leaves open.
func H_P20_object() {
	lo, hi := Int("defaultMin", 0, 4), Int("defaultMax", 0, 5)
	Assume(hi == 0 || lo <= hi)
	Assume(hi > 0 || lo <= 2)
	g, err := parse(M{"type": "object", "additionalProperties": M{"type": "null"}})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties = lo, hi
	o.DefaultArrayMinItems, o.DefaultArrayMaxItems = 5, 5
	Expect("more than the fewest")
	for call := 0; call < 2; call++ {
		m, ok := g.Generate(o).(map[string]any)
		Check("object-minimum", ok && len(m) >= lo, "fewer properties than the default minimum")
		Check("object-maximum", ok && len(m) <= orDefault(hi, 10), "more properties than the default maximum")
		Cover("more than the fewest", len(m) > lo)
	}
}

// H_P20_depth: the reference depth, and the bypass that brings it into play.
func H_P20_depth() {
	most := Int("maximumDepth", 0, 12)
	bypass := SymBool("bypass")
	g, err := parse(M{"$ref": "#/$defs/d", "$defs": M{"d": M{"type": "array", "items": M{"$ref": "#/$defs/d"}, "minItems": 1, "maxItems": 1}}})
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumReferenceDepth = most
	o.BypassCyclicReferenceCheck = bypass
	for call := 0; call < 2; call++ {
		n := nest(g.Generate(o))
		if bypass {
			Check("maximum-depth", n == orDefault(most, 10)+1, "references are not followed down to the maximum depth")
		} else {
			Check("bypass-off", n == 1, "the cyclic reference check is bypassed without being asked to")
		}
	}
}

// H_P20_attempts: each attempt limit governs its own keyword.
func H_P20_attempts() {
	n := Int("attempts", 0, 3)
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 7, 7, 7
	var s M
	switch Choice("kind", 4) {
	case 0:
		s = M{"type": "array", "items": M{"enum": L{1}}, "uniqueItems": true, "minItems": 2, "maxItems": 2}
		o.MaximumUniqueGeneratorAttempts = n
	case 1:
		s = M{"type": "string", "not": M{"pattern": ""}}
		o.MaximumUniqueGeneratorAttempts = n
	case 2:
		Assume(n > 0)
		s = M{"oneOf": L{M{"const": 1}, M{"enum": L{1}}}}
		o.MaximumOneOfAttempts = n
	case 3:
		s = M{"type": "integer", "minimum": 1, "maximum": 1, "if": M{"type": "integer"}, "then": M{"not": M{"const": 1}}}
		o.MaximumIfAttempts = n
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	Expect("given up")
	for call := 0; call < 2; call++ {
		v := g.Generate(o)
		if l, ok := v.([]any); ok && len(l) == 2 {
			v = l[1]
		}
		if t, ok := v.(string); ok && strings.Contains(t, "attempts") {
			Cover("given up", true)
			Check("configured-attempts", strings.Contains(t, "after "+digits(orDefault(n, 100))+" attempts"), "another number of attempts than the configured one is made")
		}
	}
}

// H_P20_steps: the default and the configured step limits.
func H_P20_steps() {
	steps := Int("steps", 0, 6)
	cutoff := false
	limit := orDefault(steps, 100)
	o := opts()
	if Choice("limit", 2) == 1 {
		cutoff = true
		limit = orDefault(steps, 2000)
		o.CutoffGenerationSteps = steps
		o.MaximumGenerationSteps = 5000
	} else {
		o.MaximumGenerationSteps = steps
	}
	// An array and one step for each of its elements leave the last container exactly at or past the limit
	before := limit - 3 + Choice("before", 4)
	if before < 0 {
		return
	}
	prefix := L{}
	for i := 0; i < before; i++ {
		prefix = append(prefix, M{"type": "null"})
	}
	prefix = append(prefix, M{"type": "object", "additionalProperties": M{"type": "null"}})
	g, err := parse(M{"type": "array", "prefixItems": prefix, "minItems": len(prefix), "maxItems": len(prefix)})
	if !clean(g, err) {
		return
	}
	Expect("beyond the minimum")
	for call := 0; call < 2; call++ {
		l, ok := g.Generate(o).([]any)
		Check("whole", ok && len(l) == len(prefix), "the list is not generated")
		if !ok || len(l) != len(prefix) {
			return
		}
		m, isObject := l[before].(map[string]any)
		past := 1+before+1 > limit
		if cutoff {
			Check("cutoff", isObject == !past, "the cutoff is not where it was configured")
		} else {
			Check("minimise", isObject && (!past || len(m) == 0), "the minimise threshold is not where it was configured")
			Cover("beyond the minimum", !past && len(m) > 0)
		}
	}
}

// H_P20_repeats: strings and property names have limits of their own.
func H_P20_repeats() {
	a, b := Choice("strings", 4), Choice("names", 4)
	p := &chaff.ParserOptions{}
	if a > 0 {
		p.RegexStringOptions = &regen.GeneratorArgs{MaxUnboundedRepeatCount: uint(a), MinUnboundedRepeatCount: uint(a), SuppressRandomBytes: true, Flags: syntax.PerlX}
	}
	if b > 0 {
		p.RegexPatternPropertyOptions = &regen.GeneratorArgs{MaxUnboundedRepeatCount: uint(b), MinUnboundedRepeatCount: uint(b), SuppressRandomBytes: true, Flags: syntax.PerlX}
	}
	before := *p
	names := "^x+$"
	if b > 0 {
		names = "^x*$"
	}
	s := M{"type": "object", "properties": M{"k": M{"type": "string", "pattern": "^y*$"}}, "required": L{"k"}, "patternProperties": M{names: M{"type": "null"}}, "additionalProperties": false}
	doc := JSON(s)
	g, err := chaff.ParseSchema(doc, p)
	Check("accepted", clean(g, err), "a plain schema is rejected")
	if !clean(g, err) {
		return
	}
	Check("same-document", string(doc) == string(JSON(s)), "the schema text is changed")
	Check("same-options", p.RegexStringOptions == before.RegexStringOptions && p.RegexPatternPropertyOptions == before.RegexPatternPropertyOptions && p.RelativeTo == "" && p.MaxParseDepth == 0, "the options are changed")
	if p.RegexStringOptions != nil {
		r := p.RegexStringOptions
		Check("same-options", r.MaxUnboundedRepeatCount == uint(a) && r.MinUnboundedRepeatCount == uint(a) && r.SuppressRandomBytes && !r.LimitToAscii && r.Flags == syntax.PerlX && r.RngSource == nil && r.CaptureGroupHandler == nil, "the regular expression options are changed")
	}
	o := opts()
	o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties = 2, 2
	m, ok := g.Generate(o).(map[string]any)
	Check("object", ok, "no object generated")
	for k, v := range m {
		if k == "k" {
			t, _ := v.(string)
			if a > 0 {
				Check("string-repeats", len(t) == a, "strings do not repeat as often as configured")
			} else {
				Check("string-repeats-default", len(t) <= 10, "strings repeat more often than the default allows")
			}
			continue
		}
		if b > 0 {
			Check("name-repeats", len(k) == b, "names do not repeat as often as configured")
		} else {
			Check("name-repeats-default", len(k) <= 10, "names repeat more often than the default allows")
		}
	}
}

// H_P20_untouched: neither parsing nor generating changes what the caller passed in.
func H_P20_untouched() {
	o := opts()
	rnd := o.Rand
	n := Int("value", 0, 3)
	k := Choice("option", 16)
	fields := func(o *chaff.GeneratorOptions) []int {
		return []int{o.DefaultNumberMinimum, o.DefaultNumberMaximum, o.DefaultStringMinLength, o.DefaultStringMaxLength, o.DefaultArrayMinItems, o.DefaultArrayMaxItems,
			o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties, o.MaximumReferenceDepth, o.MaximumUniqueGeneratorAttempts, o.MaximumIfAttempts, o.MaximumOneOfAttempts,
			o.MaximumGenerationSteps, o.CutoffGenerationSteps}
	}
	switch k {
	case 0:
		o.DefaultNumberMinimum = n
	case 1:
		o.DefaultNumberMaximum = n
	case 2:
		o.DefaultStringMinLength = n
	case 3:
		o.DefaultStringMaxLength = n
	case 4:
		o.DefaultArrayMinItems = n
	case 5:
		o.DefaultArrayMaxItems = n
	case 6:
		o.DefaultObjectMinProperties = n
	case 7:
		o.DefaultObjectMaxProperties = n
	case 8:
		o.MaximumReferenceDepth = n
	case 9:
		o.MaximumUniqueGeneratorAttempts = n
	case 10:
		o.MaximumIfAttempts = n
	case 11:
		o.MaximumOneOfAttempts = n
	case 12:
		o.MaximumGenerationSteps = n
	case 13:
		o.CutoffGenerationSteps = n
	case 14:
		o.BypassCyclicReferenceCheck = n > 0
	case 15:
		o.SuppressFallbackValues = n > 0
	}
	before, bypass, suppress := fields(o), o.BypassCyclicReferenceCheck, o.SuppressFallbackValues
	s := M{"type": "object", "properties": M{
		"a": M{"$ref": "#/$defs/d"},
		"b": M{"anyOf": L{M{"type": "null"}}},
		"c": M{"type": "array", "items": M{"type": "null"}, "minItems": 1, "maxItems": 1, "uniqueItems": true},
		"d": M{"const": 1, "if": M{"const": 2}, "then": M{"const": 3}},
	}, "required": L{"a", "b", "c", "d"}, "additionalProperties": false, "$defs": M{"d": M{"type": "array", "maxItems": 1, "items": M{"$ref": "#/$defs/d"}}}}
	g, err := parse(s)
	if err != nil {
		return
	}
	for call := 0; call < 2; call++ {
		g.Generate(o)
		for i, x := range fields(o) {
			Check("same-options", x == before[i], "an option of the caller is changed")
		}
		Check("same-options", o.BypassCyclicReferenceCheck == bypass && o.SuppressFallbackValues == suppress && o.Rand == rnd, "an option of the caller is changed")
		Check("no-work-left", len(o.ReferenceResolver.GetResolutions()) == 0 && !o.ShouldMinimize() && !o.ShouldCutoff(), "the work of a call is left behind in the options")
	}
}

// H_P20_file: parsing a file leaves the options alone, so that they can be used for the next one.
func H_P20_file() {
	FSCwd("/w")
	FSFile("/w/a/root.json", `{"$ref":"part.json"}`)
	FSFile("/w/a/part.json", `{"const":1}`)
	FSFile("/w/b/root.json", `{"$ref":"part.json"}`)
	FSFile("/w/b/part.json", `{"const":2}`)
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
	based := Bool("base set?")
	if based {
		FSFile("/w/c/part.json", `{"const":3}`)
		p.RelativeTo = "file://" + FSPath("/w/c/root.json")
	}
	base := p.RelativeTo
	order := []string{"a", "b"}
	if Bool("other order?") {
		order = []string{"b", "a"}
	}
	for _, d := range order {
		g, err := chaff.ParseSchemaFile(FSPath("/w/"+d+"/root.json"), p)
		Check("accepted", clean(g, err), "a schema file is rejected")
		Check("same-options", p.RelativeTo == base && p.MaxParseDepth == 0 && p.RegexStringOptions == nil && p.RegexPatternPropertyOptions == nil, "the options are changed")
		if !clean(g, err) {
			return
		}
		want := 1.0
		if d == "b" {
			want = 2
		}
		if based {
			want = 3
		}
		n, ok := asNum(g.Generate(opts()))
		Check("own-neighbour", ok && n == want, "a reference is resolved against something else than the base that was set, or else the file")
	}
}

// H_P20_numbers: the default limits of numbers and strings.
func H_P20_numbers() {
	o := opts()
	if Bool("number?") {
		lo := Int("defaultMin", 20, 30)
		o.DefaultNumberMinimum, o.DefaultNumberMaximum = lo, lo+5
		g, err := parse(M{"type": "integer"})
		if !clean(g, err) {
			return
		}
		n, ok := asNum(g.Generate(o))
		CheckK("number-limits", ok && n >= float64(lo) && n <= float64(lo+5), "a number lies outside of the default limits", "P20-number-string-defaults", true)
		return
	}
	o.DefaultStringMinLength, o.DefaultStringMaxLength = 3, 4
	g, err := parse(M{"type": "string"})
	if !clean(g, err) {
		return
	}
	t, ok := g.Generate(o).(string)
	CheckK("string-limits", ok && len(t) >= 3 && len(t) <= 4, "a string lies outside of the default limits", "P20-number-string-defaults", true)
}
