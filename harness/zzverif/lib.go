package zzverif

import (
	chaff "github.com/ryanolee/go-chaff"
)

type M = map[string]any
type L = []any

// parse runs the real parser on a document.
func parse(schema any) (chaff.RootGenerator, error) {
	return chaff.ParseSchema(JSON(schema), &chaff.ParserOptions{})
}

// clean tells whether parsing recorded no complaint at all.
func clean(g chaff.RootGenerator, err error) bool {
	return err == nil && !g.Metadata.Errors.HasErrors()
}

func opts() *chaff.GeneratorOptions { return &chaff.GeneratorOptions{Rand: Rand()} }

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// size is a bound that differs by tier.
func size(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// generated generates a value, either from the start or after so much work
// that only the bare minimum is to be generated (the schema has to hold all
// the same).
func generated(g chaff.RootGenerator, given *chaff.GeneratorOptions) any {
	if !Bool("late?") {
		return g.Generate(given)
	}
	o := *given
	def := func(p *int, d int) {
		if *p == 0 {
			*p = d
		}
	}
	def(&o.DefaultNumberMaximum, 100)
	def(&o.DefaultStringMaxLength, 100)
	def(&o.DefaultArrayMaxItems, 10)
	def(&o.DefaultObjectMaxProperties, 10)
	def(&o.MaximumReferenceDepth, 10)
	def(&o.MaximumUniqueGeneratorAttempts, 100)
	def(&o.MaximumIfAttempts, 100)
	def(&o.MaximumOneOfAttempts, 100)
	o.SuppressFallbackValues = true
	o.MaximumGenerationSteps, o.CutoffGenerationSteps = 1, 100000
	work(&o, 3)
	return g.Generator.Generate(&o)
}

// alike generates from an object whose two properties have names that look alike and checks
// the value of each by its own schema. Values for which skip holds are no failure.
func alike(one, other M, skip func(v any) bool) {
	names := L{L{"a-b", "a.b"}, L{"a b", "a_b"}, L{"a/b", "a#b"}, L{"a", "a,"}}[Choice("names", 4)].(L)
	a, b := names[0].(string), names[1].(string)
	doc := M{"type": "object", "properties": M{a: one, b: other}, "required": L{a, b}, "additionalProperties": false}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "names that look alike are rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
	v := g.Generate(o)
	m, ok := v.(map[string]any)
	Check("object", ok, "no object")
	if ok {
		Check("own-schema", skip(m[a]) || Valid(one, one, m[a]), "a value violates its schema")
		Check("own-schema", skip(m[b]) || Valid(other, other, m[b]), "a value violates its schema")
	}
}
