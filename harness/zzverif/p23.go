package zzverif

import (
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// everywhere serves files and URLs whose contents tell where they came from.
func everywhere() {
	FSCwd("/w")
	for _, f := range []string{"/w/f", "/w/d/f", "/o/f", "/f"} {
		FSFile(f, `{"const":"own"}`)
	}
	for _, u := range []string{"https://a.test/f", "http://a.test/f", "https://a.test/d/f"} {
		HTTPServe(u, 200, "", `{"const":"own"}`)
	}
}

// wherever lists what references and identifiers may say.
func wherever() []string {
	return []string{
		"f", "d/f", "../o/f", "./f", "/f", FSPath("/w/f"), FSPath("/o/f"), "file://" + FSPath("/w/f"), "file://" + FSPath("/o/f"), "file:f", "file:" + FSPath("/w/f"),
		"https://a.test/f", "http://a.test/f", "//a.test/f", "HTTPS://a.test/f", "https://a.test/f#/const", "f#/const",
	}
}

// placeAnywhere puts a reference at places that are parsed in different ways.
func placeAnywhere(kind int, r M) M {
	switch kind {
	case 0:
		return r
	case 1:
		return M{"type": "object", "properties": M{"a": r}, "required": L{"a"}, "additionalProperties": false}
	case 2:
		return M{"allOf": L{r, M{"type": "string"}}}
	case 3:
		return M{"type": "null", "not": r}
	case 4:
		return M{"type": "null", "if": r, "then": M{"enum": L{nil}}}
	case 5:
		return M{"oneOf": L{r, M{"type": "null"}}, "type": "null"}
	case 6:
		return M{"$ref": "#/$defs/x", "$defs": M{"x": r}}
	case 7:
		return M{"type": "null", "not": M{"$ref": "#/$defs/x"}, "$defs": M{"x": r}}
	case 8:
		return M{"type": "null", "not": M{"anyOf": L{M{"properties": M{"a": r}}}}}
	case 9:
		return M{"type": "array", "items": M{"type": "null"}, "contains": r, "minItems": 1, "maxItems": 1}
	case 10:
		return M{"type": "array", "minItems": 1, "maxItems": 1, "items": L{r}}
	case 11:
		return M{"type": "null", "if": M{"enum": L{nil}}, "then": r, "else": M{"not": r}}
	case 12:
		return M{"type": "object", "patternProperties": M{"^a$": r}, "additionalProperties": r, "minProperties": 1, "maxProperties": 1}
	}
	return M{"anyOf": L{M{"not": r, "type": "null"}}, "oneOf": L{M{"type": "null", "not": M{"allOf": L{r}}}}}
}

// simple places are generated from as well; at the others negations are
// tried out, which takes many draws and loads nothing new.
func simple(place int) bool { return place != 3 && place != 7 && place != 13 }

func baseFor(k int) string {
	return []string{"", "file://" + FSPath("/w/root.json"), "file://" + FSPath("/w/"), "https://a.test/root.json", "https://a.test/"}[k]
}

// checkNoAccess parses and generates and looks at what was accessed.
func checkNoAccess(s M, p *chaff.ParserOptions, forbidden string, generate bool) {
	before := len(Accesses())
	Catch(func() {
		g, err := chaff.ParseSchema(JSON(s), p)
		if err == nil && generate {
			o := opts()
			o.MaximumIfAttempts, o.MaximumOneOfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
			g.Generate(o)
		}
	})
	n := 0
	for _, a := range Accesses()[before:] {
		if strings.HasPrefix(a, forbidden) {
			n++
		}
	}
	Check("no-access", n == 0, "something is accessed that has not been enabled")
}

// H_P23_references: references anywhere in the schema, nothing enabled.
func H_P23_references() {
	everywhere()
	texts := wherever()
	ref := texts[Choice("reference", len(texts))]
	p := &chaff.ParserOptions{RelativeTo: baseFor(Choice("base", 5))}
	d := &p.DocumentFetchOptions
	// what limits access does not enable it
	d.FileSystemFetchOptions.AllowOutsideCwd = SymBool("outside allowed")
	d.HTTPFetchOptions.AllowInsecure = SymBool("insecure allowed")
	if Bool("lists given?") {
		d.FileSystemFetchOptions.AllowedPaths = []string{FSPath("/w"), FSPath("/o")}
		d.HTTPFetchOptions.AllowedHosts = []string{"a.test"}
	}
	place := Choice("place", 14)
	checkNoAccess(placeAnywhere(place, M{"$ref": ref}), p, "", simple(place))
	Expect("reached")
	Cover("reached", true)
}

// H_P23_identifiers: identifiers, dialects and base locations.
func H_P23_identifiers() {
	everywhere()
	texts := wherever()
	p := &chaff.ParserOptions{RelativeTo: baseFor([]int{0, 2, 4, 1, 3}[Choice("base", size(3, 5))])}
	key := []string{"$schema", "$id", "id"}[Choice("keyword", 3)]
	text := texts[Choice("text", len(texts))]
	ref := Choice("reference", size(2, 4))
	inner := M{"$ref": []string{"#/$defs/x", "f", "#", "d/f"}[ref]}
	if Bool("inside?") {
		inner[key] = text
	}
	place := Choice("place", 14)
	s := placeAnywhere(place, inner)
	if _, ok := s["$defs"]; !ok {
		s["$defs"] = M{"x": M{"type": "null"}}
	}
	s[key] = text
	// the others may lead back to where they are
	checkNoAccess(s, p, "", ref == 0 && simple(place))
}

// H_P23_one_kind: enabling one kind of access does not enable the other.
func H_P23_one_kind() {
	everywhere()
	texts := wherever()
	p := &chaff.ParserOptions{RelativeTo: baseFor([]int{0, 2, 4, 1, 3}[Choice("base", size(3, 5))])}
	d := &p.DocumentFetchOptions
	forbidden := "read "
	if Bool("files?") {
		d.FileSystemFetchOptions.Enabled = true
		d.FileSystemFetchOptions.AllowOutsideCwd = SymBool("outside allowed")
		d.HTTPFetchOptions.AllowInsecure = SymBool("insecure allowed")
		if Bool("hosts given?") {
			d.HTTPFetchOptions.AllowedHosts = []string{"a.test"}
		}
		forbidden = "http "
	} else {
		d.HTTPFetchOptions.Enabled = true
		d.HTTPFetchOptions.AllowInsecure = SymBool("insecure allowed")
		d.FileSystemFetchOptions.AllowOutsideCwd = SymBool("outside allowed")
		if Bool("paths given?") {
			d.FileSystemFetchOptions.AllowedPaths = []string{FSPath("/w"), FSPath("/o")}
		}
	}
	first := texts[Choice("reference", len(texts))]
	place := Choice("place", 14)
	s := placeAnywhere(place, M{"$ref": first})
	if Bool("inside a document?") {
		// the document that may be read refers to one that may not
		doc := string(JSON(placeAnywhere(place, M{"$ref": first})))
		if forbidden == "http " {
			FSFile("/w/t", doc)
			s = M{"$ref": FSPath("/w/t")}
		} else {
			HTTPServe("https://a.test/t", 200, "", doc)
			s = M{"$ref": "https://a.test/t"}
		}
	}
	checkNoAccess(s, p, forbidden, simple(place))
}

// H_P23_redirect: a redirect to a file reads no file.
func H_P23_redirect() {
	everywhere()
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.HTTPFetchOptions.Enabled = true
	p.DocumentFetchOptions.HTTPFetchOptions.AllowInsecure = SymBool("insecure allowed")
	p.DocumentFetchOptions.FileSystemFetchOptions.Enabled = false
	HTTPServe("https://a.test/r", 302, []string{"file://" + FSPath("/w/f"), "file:f", FSPath("/w/f")}[Choice("to", 3)], "")
	place := []int{0, 3, 9}[Choice("place", 3)]
	checkNoAccess(placeAnywhere(place, M{"$ref": "https://a.test/r"}), p, "read ", simple(place))
}
