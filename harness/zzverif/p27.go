package zzverif

var supportedFormats = []string{
	"date-time", "time", "date", "duration", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6",
	"uuid", "uri", "uri-reference", "iri", "iri-reference",
}

// formatted judges a generated text.
func formatted(f string, v any) {
	t, ok := v.(string)
	Check("text", ok, "a schema with a format yields something that is not a text")
	if ok {
		ok = Conforms(f, t)
		Check("conforms", ok, "a generated text does not follow its format "+f)
		Observe(f, ok)
	}
}

// H_P27_formats: every supported format, directly and through other schemas.
func H_P27_formats() {
	f := supportedFormats[Choice("format", len(supportedFormats))]
	in := M{"type": "string", "format": f}
	s := in
	where := Choice("where", 9)
	switch where {
	case 1:
		s = M{"format": f}
	case 2:
		s = M{"type": "array", "items": in, "minItems": 1, "maxItems": 1}
	case 3:
		s = M{"type": "object", "properties": M{"p": in}, "required": L{"p"}, "additionalProperties": false}
	case 4:
		s = M{"allOf": L{M{"type": "string"}, M{"format": f}}}
	case 5:
		s = M{"$defs": M{"d": in}, "$ref": "#/$defs/d"}
	case 6:
		s = M{"anyOf": L{in}}
	case 7:
		s = M{"type": L{"string"}, "format": f}
	case 8:
		s = M{"type": L{"string", "null"}, "format": f}
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a schema with a known format is not accepted")
	if !clean(g, err) {
		return
	}
	v := g.Generate(opts())
	switch where {
	case 2:
		v = v.([]any)[0]
	case 3:
		v = v.(map[string]any)["p"]
	case 8:
		if v == nil {
			return
		}
	}
	formatted(f, v)
}

// H_P27_markers: formats that cannot be generated yield the documented text.
func H_P27_markers() {
	l := []string{"uri-template", "json-pointer", "relative-json-pointer", "regex", "unheard-of", "Date", "e-mail"}
	i := Choice("format", len(l))
	g, err := parse(M{"type": "string", "format": l[i]})
	Check("accepted", clean(g, err), "a schema with an unsupported format is not accepted")
	if !clean(g, err) {
		return
	}
	want := "Unsupported Format: " + l[i]
	if i < 4 {
		want = "Known but unsupported format: " + l[i]
	}
	v := g.Generate(opts())
	Check("marker", v == any(want), "an unsupported format does not yield the documented text")
}

// H_P27_beside: formats next to each other keep to their own place.
func H_P27_beside() {
	some := []string{"date", "time", "email", "hostname", "ipv4", "uuid"}
	a, b := some[Choice("first", len(some))], some[Choice("second", len(some))]
	s := M{"type": "object", "properties": M{"a": M{"type": "string", "format": a}, "b": M{"type": "string", "format": b}}, "required": L{"a", "b"}, "additionalProperties": false}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v, _ := g.Generate(opts()).(map[string]any)
	formatted(a, v["a"])
	formatted(b, v["b"])
}
