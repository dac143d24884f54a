package zzverif

import "regexp"

// deep generates from a schema that stands many levels down and judges what is generated there.
// Values for which skip holds are the documented texts for what cannot be found.
func deep(in M, skip func(v any) bool) any {
	levels := []int{3, 6, 10}[Choice("levels", 3)]
	kind := Choice("containers", 5)
	defs := M{}
	s := in
	for i := 0; i < levels; i++ {
		k := kind
		if kind == 4 {
			k = i % 4
		}
		switch k {
		case 0:
			s = M{"type": "object", "properties": M{"p": s}, "required": L{"p"}, "additionalProperties": false}
		case 1:
			s = M{"type": "array", "items": s, "minItems": 1, "maxItems": 1}
		case 2:
			s = M{"type": "array", "prefixItems": L{s}, "items": false, "minItems": 1}
		case 3:
			defs["d"+digits(i)] = s
			s = M{"type": "object", "properties": M{"r": M{"$ref": "#/$defs/d" + digits(i)}}, "required": L{"r"}, "additionalProperties": false}
		}
	}
	if len(defs) > 0 {
		s["$defs"] = defs
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a schema many levels down is rejected")
	if !clean(g, err) {
		return nil
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
	o.DefaultArrayMaxItems, o.DefaultObjectMaxProperties, o.MaximumReferenceDepth = 2, 2, 20
	v := g.Generate(o)
	for i := 0; i < levels; i++ {
		switch t := v.(type) {
		case []any:
			Check("whole", len(t) == 1, "an element is missing on the way down")
			if len(t) != 1 {
				return nil
			}
			v = t[0]
		case map[string]any:
			x, has := t["p"]
			if !has {
				x, has = t["r"]
			}
			Check("whole", has, "a property is missing on the way down")
			v = x
		default:
			Check("whole", false, "something else stands in on the way down")
			return nil
		}
	}
	Check("own-schema", skip(v) || Valid(in, in, v), "a value many levels down violates its schema")
	return v
}

func H_P01_far_down() {
	deep(M{"type": []string{"integer", "number"}[Choice("type", 2)], "minimum": 3, "exclusiveMaximum": 5}, never)
}

func H_P02_far_down() {
	deep(M{"type": "number", "minimum": 1, "maximum": 4, "multipleOf": 1.5}, never)
}

func H_P04_far_down() { deep(M{"type": "string", "minLength": 4, "maxLength": 5}, never) }

func H_P05_far_down() {
	p := "^a[bc]{1,2}$"
	if t, ok := deep(M{"type": "string", "pattern": p}, never).(string); ok {
		Check("matches", regexp.MustCompile(p).MatchString(t), "the string does not match the pattern")
	}
}

func H_P06_far_down() {
	deep(M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "required": L{"b"}}, never)
}

func H_P07_far_down() {
	deep(M{"type": "object", "properties": M{"a": M{"const": 1}, "b": M{"const": 2}}, "additionalProperties": false, "minProperties": 1, "maxProperties": 1}, never)
}

func H_P08_far_down() {
	deep(M{"type": "array", "prefixItems": L{M{"const": 1}}, "items": M{"const": 2}, "minItems": 3, "maxItems": 4}, never)
}

func H_P09_far_down() {
	deep(M{"type": "array", "contains": M{"const": 1}, "minContains": 2, "items": M{"enum": L{1, 2}}, "minItems": 3, "maxItems": 4}, never)
}

func H_P10_far_down() {
	deep(M{"type": "array", "uniqueItems": true, "items": M{"enum": L{1, 2, 3}}, "minItems": 2, "maxItems": 2}, func(v any) bool {
		l, _ := v.([]any)
		return len(l) == 2 && unable(l[1])
	})
}

func H_P11_far_down() { deep(M{"enum": L{1, 2, "x"}, "minimum": 2, "type": "integer"}, never) }

func H_P12_far_down() { deep(M{"oneOf": L{M{"enum": L{1, 2}}, M{"const": 2}}}, oneOfFailed) }

func H_P13_far_down() {
	deep(M{"type": "integer", "anyOf": L{M{"enum": L{1, 2}}, M{"const": 5}}}, oneOfFailed)
}

func H_P14_far_down() {
	deep(M{"allOf": L{M{"type": "integer", "minimum": 3}, M{"maximum": 4}}}, never)
}

func H_P15_far_down() { deep(M{"enum": L{1, 2}, "not": M{"const": 1}}, gaveUp) }

func H_P16_far_down() {
	deep(M{"type": "integer", "minimum": 0, "maximum": 3, "if": M{"minimum": 2}, "then": M{"const": 3}, "else": M{"const": 0}}, func(v any) bool { return ifFailed(v, 1) })
}

func H_P24_far_down() {
	deep(M{"type": L{"boolean", "integer", "null"}, "minimum": 1, "maximum": 1}, never)
}

func H_P27_far_down() {
	f := []string{"date", "ipv4", "uuid"}[Choice("format", 3)]
	if v := deep(M{"type": "string", "format": f}, never); v != nil {
		formatted(f, v)
	}
}

func H_P32_far_down() {
	deep(M{"type": "array", "prefixItems": L{M{"const": 1}}, "unevaluatedItems": false}, never)
}
