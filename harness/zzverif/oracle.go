package zzverif

import (
	"encoding/json"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	santhosh "github.com/santhosh-tekuri/jsonschema/v6"
)

// The oracle: a direct reading of the JSON Schema specification (2020-12, with
// the older list form of items) for the keywords the generator supports.  It is
// the judge of the harnesses, and it stands in for the third-party validator
// when the engine runs the real code.

type resolveFn = func(url string) (any, bool)

// OracleCompile tells why a document is no schema, "" if it is one.
func OracleCompile(resolve resolveFn, base string, schema any) string {
	if msg := metaCheck(resolve, schema); msg != "" {
		return msg
	}
	return compileCheck(resolve, base, schema, map[string]bool{})
}

// metaCheck looks up the dialect a document names.
func metaCheck(resolve resolveFn, doc any) string {
	s, _ := doc.(map[string]any)
	meta, ok := s["$schema"].(string)
	if !ok || strings.Contains(meta, "://json-schema.org/") {
		return ""
	}
	if i := strings.Index(meta, "#"); i >= 0 {
		meta = meta[:i]
	}
	if _, ok := resolve(meta); !ok {
		return "$schema cannot be loaded"
	}
	return ""
}

// OracleValidate tells whether value satisfies schema.
func OracleValidate(resolve resolveFn, base string, schema any, formats bool, value any) bool {
	o := &oracle{resolve: resolve, base: base, formats: formats, trail: []string{base + "#"}, library: true}
	return o.valid(schema, value, 0)
}

type oracle struct {
	trail   []string // what led to the same value
	resolve resolveFn
	base    string
	formats bool // whether formats are asserted
	library bool // whether it stands in for the library, slips included
}

func compileCheck(resolve resolveFn, base string, schema any, seen map[string]bool) string {
	s, ok := schema.(map[string]any)
	if !ok {
		if _, b := schema.(bool); b {
			return ""
		}
		return "schema is neither an object nor a boolean"
	}
	for _, k := range []string{"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "minContains", "maxContains"} {
		if v, ok := s[k]; ok {
			n, isNum := asNum(v)
			if !isNum || n < 0 {
				return k + " is not a non-negative number"
			}
		}
	}
	for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
		if v, ok := s[k]; ok {
			if _, isNum := asNum(v); !isNum {
				return k + " is not a number"
			}
		}
	}
	if v, ok := s["multipleOf"]; ok {
		n, isNum := asNum(v)
		if !isNum || n <= 0 {
			return "multipleOf is not a positive number"
		}
	}
	if v, ok := s["pattern"]; ok {
		p, isStr := v.(string)
		if !isStr {
			return "pattern is not a string"
		}
		if _, err := regexp.Compile(p); err != nil {
			return "pattern is no regular expression"
		}
	}
	if v, ok := s["type"]; ok {
		if msg := typeCheck(v); msg != "" {
			return msg
		}
	}
	if v, ok := s["enum"]; ok {
		l, isList := v.([]any)
		if !isList {
			return "enum is no list"
		}
		_ = l
	}
	if v, ok := s["required"]; ok {
		l, isList := v.([]any)
		if !isList {
			return "required is no list"
		}
		for _, x := range l {
			if _, isStr := x.(string); !isStr {
				return "required holds a non-string"
			}
		}
	}
	if v, ok := s["uniqueItems"]; ok {
		if _, isBool := v.(bool); !isBool {
			return "uniqueItems is no boolean"
		}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf", "prefixItems"} {
		if v, ok := s[k]; ok {
			l, isList := v.([]any)
			if !isList || len(l) == 0 {
				return k + " is no non-empty list"
			}
			for _, x := range l {
				if msg := compileCheck(resolve, base, x, seen); msg != "" {
					return msg
				}
			}
		}
	}
	for _, k := range []string{"not", "if", "then", "else", "contains", "additionalProperties", "additionalItems", "propertyNames", "unevaluatedItems", "unevaluatedProperties", "items"} {
		v, ok := s[k]
		if !ok {
			continue
		}
		if l, isList := v.([]any); isList && k == "items" {
			// only drafts up to 2019-09 allow the list form; the default draft
			// of the validator does not
			_ = l
			return "items is a list"
		}
		if msg := compileCheck(resolve, base, v, seen); msg != "" {
			return msg
		}
	}
	for _, k := range []string{"properties", "patternProperties", "$defs", "definitions"} {
		v, ok := s[k]
		if !ok {
			continue
		}
		mp, isMap := v.(map[string]any)
		if !isMap {
			return k + " is no object"
		}
		for name, x := range mp {
			if k == "patternProperties" {
				if _, err := regexp.Compile(name); err != nil {
					return "patternProperties holds no regular expression"
				}
			}
			if msg := compileCheck(resolve, base, x, seen); msg != "" {
				return msg
			}
		}
	}
	if v, ok := s["$ref"]; ok {
		ref, isStr := v.(string)
		if !isStr {
			return "$ref is no string"
		}
		o := &oracle{resolve: resolve, base: base}
		t, b, ok := o.target(ref)
		if !ok {
			return "$ref cannot be resolved: " + ref
		}
		if seen[b+"|"+ref] {
			return ""
		}
		if b != base && !seen[b] {
			seen[b] = true
			if doc, ok := resolve(b); ok {
				if msg := metaCheck(resolve, doc); msg != "" {
					return msg
				}
			}
		}
		seen[b+"|"+ref] = true
		if msg := compileCheck(resolve, b, t, seen); msg != "" {
			return msg
		}
	}
	return ""
}

func typeCheck(v any) string {
	switch t := v.(type) {
	case string:
		for _, k := range allTypes {
			if k == t {
				return ""
			}
		}
		return "unknown type"
	case []any:
		for _, x := range t {
			if _, isStr := x.(string); !isStr {
				return "type holds a non-string"
			}
			if msg := typeCheck(x); msg != "" {
				return msg
			}
		}
		return ""
	}
	return "type is neither string nor list"
}

var allTypes = []string{"array", "boolean", "integer", "null", "number", "object", "string"}

func asNum(v any) (float64, bool) {
	switch n := v.(type) {
	case float64:
		return n, true
	case int:
		return float64(n), true
	case int64:
		return float64(n), true
	}
	return 0, false
}

// inside judges a part of the value.
func (o *oracle) inside() *oracle {
	return &oracle{resolve: o.resolve, base: o.base, formats: o.formats, library: o.library}
}

func (o *oracle) target(ref string) (any, string, bool) {
	where, frag := ref, ""
	if i := strings.Index(ref, "#"); i >= 0 {
		where, frag = ref[:i], ref[i+1:]
	}
	if where == "" {
		where = o.base
	}
	doc, ok := o.resolve(where)
	if !ok {
		return nil, "", false
	}
	t, ok := Pointer(doc, frag)
	return t, where, ok
}

// Pointer follows a JSON pointer (as a URI fragment without escapes beyond ~0 ~1).
func Pointer(doc any, ptr string) (any, bool) {
	if ptr == "" {
		return doc, true
	}
	if plain, err := url.PathUnescape(ptr); err == nil {
		ptr = plain
	}
	if ptr[0] != '/' {
		return nil, false
	}
	cur := doc
	for _, tok := range strings.Split(ptr[1:], "/") {
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		switch c := cur.(type) {
		case map[string]any:
			n, ok := c[tok]
			if !ok {
				return nil, false
			}
			cur = n
		case []any:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(c) {
				return nil, false
			}
			cur = c[i]
		default:
			return nil, false
		}
	}
	return cur, true
}

// TypeOf is the JSON type name of a generated value.
func TypeOf(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	}
	if _, ok := asNum(v); ok {
		return "number"
	}
	return "?"
}

// WholeNumber tells whether v is a number without fractional part.
func WholeNumber(v any) bool {
	switch n := v.(type) {
	case int:
		return true
	case int64:
		return true
	case float64:
		return IsMultiple(n, 1)
	}
	return false
}

func hasType(t string, v any) bool {
	got := TypeOf(v)
	if t == "integer" {
		return got == "number" && WholeNumber(v)
	}
	return got == t
}

// SameJSON is equality of JSON values.
func SameJSON(a, b any) bool {
	x, okx := asNum(a)
	y, oky := asNum(b)
	if okx || oky {
		return okx && oky && x == y
	}
	switch a := a.(type) {
	case nil:
		return b == nil
	case bool:
		c, ok := b.(bool)
		return ok && a == c
	case string:
		c, ok := b.(string)
		return ok && a == c
	case []any:
		c, ok := b.([]any)
		if !ok || len(a) != len(c) {
			return false
		}
		for i := range a {
			if !SameJSON(a[i], c[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		c, ok := b.(map[string]any)
		if !ok || len(a) != len(c) {
			return false
		}
		for k, v := range a {
			w, ok := c[k]
			if !ok || !SameJSON(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// same compares a value with one that the schema lists.  The library takes a
// number and a text that reads as the same number for equal, which is followed
// where the library is stood in for, and not where values are judged.
func (o *oracle) same(listed, v any) bool {
	if o.library {
		if t, ok := listed.(string); ok {
			if n, isNum := asNum(v); isNum {
				f, err := strconv.ParseFloat(t, 64)
				return err == nil && f == n
			}
		}
	}
	return SameJSON(listed, v)
}

// numericText tells whether a schema lists a text that reads as a number.
func numericText(v any) bool {
	switch x := v.(type) {
	case string:
		_, err := strconv.ParseFloat(x, 64)
		return err == nil
	case map[string]any:
		for _, y := range x {
			if numericText(y) {
				return true
			}
		}
	case []any:
		for _, y := range x {
			if numericText(y) {
				return true
			}
		}
	}
	return false
}

func (o *oracle) valid(schema, v any, depth int) bool {
	if depth > 40 {
		return true
	}
	if b, ok := schema.(bool); ok {
		return b
	}
	s, ok := schema.(map[string]any)
	if !ok {
		return true
	}
	if r, ok := s["$ref"]; ok {
		ref, _ := r.(string)
		t, base, ok := o.target(ref)
		if !ok {
			return false
		}
		// A reference that leads back to itself at the same value counts as violated, as it does for the real validator
		key := base + "#" + strings.TrimPrefix(ref[strings.Index(ref+"#", "#"):], "#")
		for _, seen := range o.trail {
			if seen == key {
				return false
			}
		}
		o2 := &oracle{resolve: o.resolve, base: base, formats: o.formats, library: o.library, trail: append(append([]string{}, o.trail...), key)}
		if !o2.valid(t, v, depth+1) {
			return false
		}
	}
	if t, ok := s["type"]; ok {
		switch t := t.(type) {
		case string:
			if !hasType(t, v) {
				return false
			}
		case []any:
			hit := false
			for _, x := range t {
				if n, ok := x.(string); ok && hasType(n, v) {
					hit = true
					break
				}
			}
			if !hit {
				return false
			}
		}
	}
	if c, ok := s["const"]; ok {
		if !o.same(c, v) {
			return false
		}
	}
	if e, ok := s["enum"].([]any); ok {
		hit := false
		kinds := map[string]bool{}
		for _, c := range e {
			kinds[TypeOf(c)] = true
		}
		for _, c := range e {
			if SameJSON(c, v) || o.library && o.same(c, v) && kinds[TypeOf(v)] {
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	switch x := v.(type) {
	case string:
		if !o.validString(s, x) {
			return false
		}
	case []any:
		if !o.validArray(s, x, depth) {
			return false
		}
	case map[string]any:
		if !o.validObject(s, x, depth) {
			return false
		}
	default:
		if n, ok := asNum(v); ok {
			if !validNumber(s, n) {
				return false
			}
		}
	}
	if l, ok := s["allOf"].([]any); ok {
		for _, b := range l {
			if !o.valid(b, v, depth+1) {
				return false
			}
		}
	}
	if l, ok := s["anyOf"].([]any); ok {
		hit := false
		for _, b := range l {
			if o.valid(b, v, depth+1) {
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	if l, ok := s["oneOf"].([]any); ok {
		hits := 0
		for _, b := range l {
			if o.valid(b, v, depth+1) {
				hits++
			}
		}
		if hits != 1 {
			return false
		}
	}
	if n, ok := s["not"]; ok {
		if o.valid(n, v, depth+1) {
			return false
		}
	}
	if c, ok := s["if"]; ok {
		if o.valid(c, v, depth+1) {
			if t, ok := s["then"]; ok && !o.valid(t, v, depth+1) {
				return false
			}
		} else if e, ok := s["else"]; ok && !o.valid(e, v, depth+1) {
			return false
		}
	}
	return true
}

func validNumber(s map[string]any, n float64) bool {
	if b, ok := asNum(s["minimum"]); ok && n < b {
		return false
	}
	if b, ok := asNum(s["maximum"]); ok && n > b {
		return false
	}
	if b, ok := asNum(s["exclusiveMinimum"]); ok && n <= b {
		return false
	}
	if b, ok := asNum(s["exclusiveMaximum"]); ok && n >= b {
		return false
	}
	if d, ok := asNum(s["multipleOf"]); ok && !IsMultiple(n, d) {
		return false
	}
	return true
}

func (o *oracle) validString(s map[string]any, x string) bool {
	if b, ok := asNum(s["minLength"]); ok && float64(utf8.RuneCountInString(x)) < b {
		return false
	}
	if b, ok := asNum(s["maxLength"]); ok && float64(utf8.RuneCountInString(x)) > b {
		return false
	}
	if p, ok := s["pattern"].(string); ok {
		r, err := regexp.Compile(p)
		if err != nil || !r.MatchString(x) {
			return false
		}
	}
	if f, ok := s["format"].(string); ok && o.formats && !Conforms(f, x) {
		return false
	}
	return true
}

func (o *oracle) validArray(s map[string]any, x []any, depth int) bool {
	if b, ok := asNum(s["minItems"]); ok && float64(len(x)) < b {
		return false
	}
	if b, ok := asNum(s["maxItems"]); ok && float64(len(x)) > b {
		return false
	}
	pre := 0
	prefix, _ := s["prefixItems"].([]any)
	rest, hasRest := s["items"]
	if l, ok := rest.([]any); ok {
		prefix = l
		rest, hasRest = s["additionalItems"]
	}
	for i := range prefix {
		if i < len(x) {
			pre = i + 1
			if !o.inside().valid(prefix[i], x[i], depth+1) {
				return false
			}
		}
	}
	if hasRest {
		for i := pre; i < len(x); i++ {
			if !o.inside().valid(rest, x[i], depth+1) {
				return false
			}
		}
	}
	if c, ok := s["contains"]; ok {
		n := 0
		for i := range x {
			if o.inside().valid(c, x[i], depth+1) {
				n++
			}
		}
		min := 1.0
		if b, ok := asNum(s["minContains"]); ok {
			min = b
		}
		if float64(n) < min {
			return false
		}
		if b, ok := asNum(s["maxContains"]); ok && float64(n) > b {
			return false
		}
	}
	if u, ok := s["unevaluatedItems"]; ok {
		done := make([]bool, len(x))
		o.evaluated(s, x, done, depth)
		for i := range x {
			if !done[i] && !o.inside().valid(u, x[i], depth+1) {
				return false
			}
		}
	}
	if u, ok := s["uniqueItems"].(bool); ok && u {
		for i := range x {
			for j := 0; j < i; j++ {
				if SameJSON(x[i], x[j]) {
					return false
				}
			}
		}
	}
	return true
}

// evaluated marks the elements that the keywords of a schema other than its own
// unevaluatedItems account for, given that the array is valid so far.
func (o *oracle) evaluated(s map[string]any, x []any, done []bool, depth int) {
	if depth > 40 {
		return
	}
	prefix, _ := s["prefixItems"].([]any)
	_, rest := s["items"]
	if l, ok := s["items"].([]any); ok {
		prefix = l
		_, rest = s["additionalItems"]
	}
	for i := range x {
		if i < len(prefix) || rest {
			done[i] = true
		}
		if c, ok := s["contains"]; ok && !done[i] && o.inside().valid(c, x[i], depth+1) {
			done[i] = true
		}
	}
	within := func(sub any, asked bool) {
		m, ok := sub.(map[string]any)
		if !ok || asked && !o.inside().valid(m, x, depth+1) {
			return
		}
		if _, ok := m["unevaluatedItems"]; ok {
			for i := range x {
				done[i] = true
			}
		}
		o.evaluated(m, x, done, depth+1)
	}
	if ref, ok := s["$ref"].(string); ok {
		if t, _, ok := o.target(ref); ok {
			within(t, false)
		}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if l, ok := s[k].([]any); ok {
			for _, sub := range l {
				within(sub, k != "allOf")
			}
		}
	}
	if c, ok := s["if"]; ok {
		if o.inside().valid(c, x, depth+1) {
			within(c, false)
			within(s["then"], false)
		} else {
			within(s["else"], false)
		}
	}
}

func (o *oracle) validObject(s map[string]any, x map[string]any, depth int) bool {
	if b, ok := asNum(s["minProperties"]); ok && float64(len(x)) < b {
		return false
	}
	if b, ok := asNum(s["maxProperties"]); ok && float64(len(x)) > b {
		return false
	}
	if l, ok := s["required"].([]any); ok {
		for _, k := range l {
			if n, ok := k.(string); ok {
				if _, has := x[n]; !has {
					return false
				}
			}
		}
	}
	props, _ := s["properties"].(map[string]any)
	pats, _ := s["patternProperties"].(map[string]any)
	extra, hasExtra := s["additionalProperties"]
	for k, v := range x {
		declared := false
		if p, ok := props[k]; ok {
			declared = true
			if !o.inside().valid(p, v, depth+1) {
				return false
			}
		}
		for p, sub := range pats {
			r, err := regexp.Compile(p)
			if err != nil {
				return false
			}
			if r.MatchString(k) {
				declared = true
				if !o.inside().valid(sub, v, depth+1) {
					return false
				}
			}
		}
		if !declared && hasExtra && !o.inside().valid(extra, v, depth+1) {
			return false
		}
		if n, ok := s["propertyNames"]; ok && !o.inside().valid(n, k, depth+1) {
			return false
		}
	}
	return true
}

// ---- judging from a harness

const selfURL = "file:///zzself.json"

// Valid judges v by schema; local references point into root.
func Valid(root, schema, v any) bool {
	o := &oracle{base: selfURL, formats: true, resolve: func(u string) (any, bool) {
		if u == selfURL {
			return root, true
		}
		return nil, false
	}}
	got := o.valid(schema, v, 0)
	if !Symbolic() {
		crossCheck(root, schema, v, got)
	}
	return got
}

// crossCheck compares the oracle with the third-party validator (native only).
func crossCheck(root, schema, v any, got bool) {
	var r, s, val any
	if json.Unmarshal(JSON(root), &r) != nil || json.Unmarshal(JSON(schema), &s) != nil {
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		return
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	if dec.Decode(&val) != nil {
		return
	}
	c := santhosh.NewCompiler()
	c.AssertFormat()
	if listForm(r) || listForm(s) {
		c.DefaultDraft(santhosh.Draft2019)
	}
	rewriteRefs(s)
	if c.AddResource(selfURL, r) != nil || c.AddResource("file:///zzsub.json", s) != nil {
		return
	}
	sch, err := c.Compile("file:///zzsub.json")
	if err != nil {
		return
	}
	if want := sch.Validate(val) == nil; want != got && !numericText(r) && !numericText(s) {
		panic(endOfRun{"oracle disagrees with the validator: " + string(JSON(schema)) + " on " + string(b)})
	}
}

func rewriteRefs(v any) {
	switch x := v.(type) {
	case map[string]any:
		if r, ok := x["$ref"].(string); ok && strings.HasPrefix(r, "#") {
			x["$ref"] = selfURL + r
		}
		for _, y := range x {
			rewriteRefs(y)
		}
	case []any:
		for _, y := range x {
			rewriteRefs(y)
		}
	}
}

func listForm(v any) bool {
	switch x := v.(type) {
	case map[string]any:
		if _, ok := x["items"].([]any); ok {
			return true
		}
		for _, y := range x {
			if listForm(y) {
				return true
			}
		}
	case []any:
		for _, y := range x {
			if listForm(y) {
				return true
			}
		}
	}
	return false
}
