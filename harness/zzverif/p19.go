package zzverif

import (
	"strconv"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// work lets n steps of generation pass on the given options.
func work(o *chaff.GeneratorOptions, n int) {
	g, err := parse(M{"type": "null"})
	if err != nil {
		return
	}
	for i := 0; i < n; i++ {
		g.Generator.Generate(o)
	}
}

// checkBudget judges the attempts granted at one point of the generation.
func checkBudget(o *chaff.GeneratorOptions, done, base, minimise, cutoff int) int {
	b := o.ScaledRetryBudget(base)
	past := minimise > 0 && done > minimise
	gone := cutoff > 0 && done > cutoff
	Check("minimise-threshold", o.ShouldMinimize() == past, "the minimise threshold is not where it was configured")
	Check("cutoff-threshold", o.ShouldCutoff() == gone, "the cutoff is not where it was configured")
	Check("at-least-one", b >= 1, "no attempt at all is granted")
	if base >= 1 {
		Check("at-most-configured", b <= base, "more attempts than configured are granted")
		if !past {
			Check("full-budget", b == base, "fewer attempts than configured are granted below the minimise threshold")
		}
	}
	if past && gone {
		Check("one-past-cutoff", b == 1, "more than one attempt is granted past the cutoff")
	}
	return b
}

// H_P19_budget: all limits, the budget followed step by step.
func H_P19_budget() {
	minimise := Int("minimise", 0, size(6, 9))
	cutoff := Int("cutoff", 0, size(8, 12))
	base := Int("base", -2, size(60, 400))
	o := &chaff.GeneratorOptions{MaximumGenerationSteps: minimise, CutoffGenerationSteps: cutoff}
	last := checkBudget(o, 0, base, minimise, cutoff)
	for n := 1; n <= size(10, 14); n++ {
		work(o, 1)
		b := checkBudget(o, n, base, minimise, cutoff)
		Check("never-grows", b <= last, "more attempts are granted the more work is done")
		last = b
	}
}

// H_P19_far: limits of everyday size around the amount of work done.
func H_P19_far() {
	done := []int{99, 100, 101, 1500, 2000, 2001}[Choice("work", 6)]
	minimise := Int("minimise", 0, 3000)
	cutoff := Int("cutoff", 0, 3000)
	base := []int{1, 2, 3, 7, 100, 1000}[Choice("base", 6)]
	o := &chaff.GeneratorOptions{MaximumGenerationSteps: minimise, CutoffGenerationSteps: cutoff}
	work(o, done)
	checkBudget(o, done, base, minimise, cutoff)
}

// H_P19_minimise: containers hold the bare minimum past the threshold.
func H_P19_minimise() {
	least := Int("least", 0, 2)
	var s M
	switch Choice("container", 5) {
	case 0:
		s = M{"type": "array", "items": M{"type": "null"}, "minItems": least, "maxItems": 4}
	case 1:
		s = M{"type": "array", "items": M{"type": "null"}, "minItems": least}
	case 2:
		s = M{"type": "object", "properties": M{"a": M{"type": "null"}, "b": M{"type": "null"}}, "required": L{"a"}, "minProperties": least}
	case 3:
		s = M{"type": "object", "additionalProperties": M{"type": "null"}, "minProperties": least, "maxProperties": 4}
	case 4:
		s = M{"type": "object", "properties": M{"a": M{"type": "null"}, "b": M{"type": "null"}, "c": M{"type": "boolean"}}, "additionalProperties": false}
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a plain schema is rejected")
	if !clean(g, err) {
		return
	}
	minimise := Int("minimise", 1, 4)
	done := Int("done", 0, 5)
	o := opts()
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties = 4, 4
	o.SuppressFallbackValues = true
	o.MaximumGenerationSteps = minimise
	o.CutoffGenerationSteps = 100
	work(o, done)
	v := g.Generator.Generate(o)
	n := -1
	if l, ok := v.([]any); ok {
		n = len(l)
	}
	if m, ok := v.(map[string]any); ok {
		n = len(m)
	}
	want := least
	if r, ok := s["required"].(L); ok && len(r) > want {
		want = len(r)
	}
	if _, ok := s["minProperties"]; !ok && s["type"] == "object" {
		want = 0
	}
	Check("container", n >= want, "a container is missing or too small")
	if done >= minimise {
		Check("bare-minimum", n == want, "more than required is generated past the minimise threshold")
	}
}

// H_P19_cutoff: nothing is generated any more past the cutoff.
func H_P19_cutoff() {
	var s M
	leaf := M{"type": "null"}
	switch Choice("kind", 6) {
	case 0:
		s = M{"type": "array", "items": leaf, "minItems": 2}
	case 1:
		s = M{"type": "object", "properties": M{"a": leaf}, "required": L{"a"}}
	case 2:
		s = M{"anyOf": L{M{"type": "boolean"}, M{"type": "object"}}}
	case 3:
		s = M{"oneOf": L{M{"type": "boolean"}, M{"type": "object"}}}
	case 4:
		s = M{"$ref": "#/$defs/a", "$defs": M{"a": M{"type": "array", "items": leaf, "minItems": 1}}}
	case 5:
		s = M{"type": "array", "prefixItems": L{leaf}, "minItems": 1}
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a plain schema is rejected")
	if !clean(g, err) {
		return
	}
	cutoff := Int("cutoff", 1, 4)
	done := Int("done", 0, 5)
	o := opts()
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties = 2, 2
	o.MaximumOneOfAttempts = 2
	o.SuppressFallbackValues = true
	o.MaximumReferenceDepth = 3
	o.CutoffGenerationSteps = cutoff
	work(o, done)
	v := g.Generator.Generate(o)
	if done >= cutoff {
		Check("stopped", v == nil, "something is generated past the cutoff")
	} else if cutoff-done > 3 {
		Check("not-stopped", v != nil, "nothing is generated before the cutoff")
	}
}

// containers counts the arrays and objects of a value.
func containers(v any) int {
	n := 0
	switch t := v.(type) {
	case []any:
		n = 1
		for _, x := range t {
			n += containers(x)
		}
	case map[string]any:
		n = 1
		for _, x := range t {
			n += containers(x)
		}
	}
	return n
}

// H_P19_total: the cutoff bounds the size of recursive values, the minimise threshold that of lists.
func H_P19_total() {
	cutoff := Int("cutoff", 1, size(8, 16))
	d := M{"$ref": "#/$defs/d"}
	s := M{"$ref": "#/$defs/d", "$defs": M{"d": M{"type": "object", "properties": M{"a": d, "b": d, "c": d}, "required": L{"a", "b", "c"}, "additionalProperties": false}}}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a recursive schema is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.BypassCyclicReferenceCheck = true
	o.MaximumReferenceDepth = 30
	o.CutoffGenerationSteps = cutoff
	for call := 0; call < 2; call++ {
		v := g.Generate(o)
		Check("bounded-by-cutoff", containers(v) <= cutoff, "more is generated than the cutoff allows")
		Check("fresh-budget", cutoff < 2 || containers(v) >= 1, "a later call starts with a spent budget")
	}
}

// H_P19_attempts: the attempts reported by the documented texts are the configured ones.
func H_P19_attempts() {
	Expect("given up")
	n := Int("attempts", 0, 3)
	want := n
	if n == 0 {
		want = 100
	}
	o := opts()
	var s M
	switch Choice("kind", 3) {
	case 0:
		Assume(n > 0)
		s = M{"oneOf": L{M{"const": 1}, M{"enum": L{1}}}}
		o.MaximumOneOfAttempts = n
	case 1:
		s = M{"type": "string", "not": M{"pattern": ""}}
		o.MaximumUniqueGeneratorAttempts = n
	case 2:
		s = M{"type": "array", "items": M{"const": 1}, "uniqueItems": true, "minItems": 2, "maxItems": 2}
		o.MaximumUniqueGeneratorAttempts = n
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v := g.Generate(o)
	if l, ok := v.([]any); ok && len(l) == 2 {
		v = l[1]
	}
	t, ok := v.(string)
	if !ok {
		return
	}
	if i := strings.Index(t, " after "); i >= 0 && strings.Contains(t[i:], "attempts") {
		Cover("given up", true)
		Check("configured-attempts", strings.Contains(t, "after "+strconv.Itoa(want)+" attempts"), "another number of attempts than the configured one is made")
	}
}
