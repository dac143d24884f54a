package zzverif

import (
	"fmt"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// The harnesses in this file are about schemas with more parts than the others use: whatever is
// promised for two or three parts is promised for a dozen.

// H_P05_dozen: more alternatives, parts and repeats than usual.
func H_P05_dozen() {
	var p string
	switch Choice("shape", 6) {
	case 0:
		p = "^(a|b|c|d|e|f|g|h|i|j|k|l)$"
	case 1:
		p = "^(?:ab|cd|ef|gh|ij|kl|mn|op)-(?:q|rs|t|uv|w|xy|z|0|1)$"
	case 2:
		p = "^a{0,20}b{12}$"
	case 3:
		p = "^[a-c]x[d-f]y[g-i]z[0-9]-[j-l]_[m-o]:[p-r]$"
	case 4:
		p = "^((((((a|b)c)d)e)f)g)$"
	case 5:
		p = "^abcdefghijklmnopqrstuvwxyz0123456789{20}$"
	}
	g, err := parseWithRepeats(M{"type": "string", "pattern": p}, 2)
	ok := clean(g, err)
	Check("accepted", ok, "a supported pattern is rejected")
	if ok {
		checkPattern(p, g.Generate(opts()))
	}
}

// H_P06_dozen: a dozen declared properties.
func H_P06_dozen() {
	n := []int{5, 8, 12, 24}[Choice("properties", 4)]
	props, req := M{}, L{}
	for i := 0; i < n; i++ {
		props["p"+digits(i)] = M{"const": i}
		req = append(req, "p"+digits(i))
	}
	s := M{"type": "object", "properties": props, "required": req}
	switch Choice("beside", 3) {
	case 0:
		s["additionalProperties"] = false
	case 1:
		s["maxProperties"] = n
	}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a plain object schema is rejected")
	if !ok {
		return
	}
	o := opts()
	o.DefaultObjectMinProperties, o.DefaultObjectMaxProperties = 0, 2
	checkObject(s, generated(g, o))
}

// H_P07_dozen: counts of a dozen.
func H_P07_dozen() {
	n := []int{6, 12, 20}[Choice("minProperties", 3)]
	s := M{"type": "object", "minProperties": n, "maxProperties": n}
	props, req := M{}, L{}
	for i := 0; i < n-1; i++ {
		props["p"+digits(i)] = M{"const": i}
		req = append(req, "p"+digits(i))
	}
	s["required"] = req
	switch Choice("names", 3) {
	case 0:
		s["properties"], s["additionalProperties"] = props, M{"const": 1}
	case 1:
		props["last"] = M{"const": "l"}
		s["properties"], s["additionalProperties"] = props, false
	case 2:
		s["additionalProperties"] = M{"const": 1}
	}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "satisfiable property counts are rejected")
	if ok {
		checkCounts(s, generated(g, opts()), n, n, true)
	}
}

// H_P08_dozen: a prefix of a dozen elements and more counts than usual.
func H_P08_dozen() {
	n := []int{5, 8, 12, 16}[Choice("prefix", 4)]
	pre := L{}
	for i := 0; i < n; i++ {
		pre = append(pre, M{"const": i})
	}
	s := M{"type": "array"}
	rest := "items"
	if Bool("list form?") {
		s["items"], rest = pre, "additionalItems"
	} else {
		s["prefixItems"] = pre
	}
	var follow any = false
	min := n
	if Bool("more?") {
		follow = M{"const": "m"}
		min = n + Choice("min", 12)
	}
	s[rest], s["minItems"], s["maxItems"] = follow, min, min
	g, err := parse(s)
	ok := clean(g, err)
	Check("consistent-accepted", ok, "satisfiable item counts are rejected")
	if ok {
		checkArray(generated(g, opts()), min, min, pre, follow, true)
	}
}

// H_P09_dozen: a dozen elements that match contains.
func H_P09_dozen() {
	n := []int{4, 7, 12}[Choice("minContains", 3)]
	con, items := M{"const": "c"}, M{"enum": L{"c", "d"}}
	s := M{"type": "array", "contains": con, "minContains": n}
	pre := 0
	switch Choice("kind", 3) {
	case 0:
		s["items"] = M{"const": "c"}
		items = M{"const": "c"}
	case 1:
		pre = n + 2
		l := L{}
		for i := 0; i < pre; i++ {
			l = append(l, M{"const": "d"})
		}
		s["prefixItems"] = l
		s["items"] = M{"const": "c"}
		items = M{"const": "c"}
	case 2: // one more element that does not have to match
		s["items"], s["maxItems"], s["minItems"] = items, n+2, n+1
	}
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a contains schema is rejected")
	if ok {
		checkContains(generated(g, opts()), con, n, items, pre)
	}
}

// H_P09_dozen_limited: maxContains counts late elements as well as early ones.
func H_P09_dozen_limited() {
	n := []int{4, 7, 12}[Choice("before", 3)]
	con, items := M{"const": "c"}, M{"enum": L{"c", "d"}}
	s := M{"type": "array", "contains": con, "items": items}
	need, most := 1, 2
	pre := L{}
	switch Choice("kind", 3) {
	case 0: // after many that do not match
		for i := 0; i < n; i++ {
			pre = append(pre, M{"const": "d"})
		}
	case 1: // after many of which the last one matches
		for i := 0; i < n; i++ {
			pre = append(pre, M{"const": "d"})
		}
		pre = append(pre, M{"const": "c"})
	case 2: // after many that match
		need, most = n, n+1
		s["minContains"] = n
	}
	if len(pre) > 0 {
		s["prefixItems"] = pre
	}
	s["maxContains"] = most
	s["minItems"], s["maxItems"] = len(pre)+need+2, len(pre)+need+2
	g, err := parse(s)
	Check("consistent-accepted", clean(g, err), "a satisfiable schema is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 1
	checkLimited(generated(g, o), con, need, most, items, pre)
}

// H_P10_dozen: the last of many elements equals any one of those before it.
func H_P10_dozen() {
	n := []int{4, 9, 14}[Choice("elements", 3)]
	kind := Choice("kind", 4)
	at := func(i int) any {
		switch kind {
		case 0:
			return i
		case 1:
			return "text " + digits(i)
		case 2:
			return M{"k": M{"n": L{i}}}
		}
		l := L{}
		for j := 0; j < 10; j++ {
			l = append(l, j)
		}
		return append(l, i)
	}
	l := L{}
	for i := 0; i < n; i++ {
		l = append(l, M{"const": at(i)})
	}
	s := M{"type": "array", "uniqueItems": true, "prefixItems": l, "items": M{"const": at(Choice("same as", n))}, "minItems": n + 1, "maxItems": n + 1}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts = 2
	v, _ := g.Generate(o).([]any)
	Check("length", len(v) == n+1, "wrong number of elements")
	checkUnique(v, 2)
	for i := 0; i < len(v)-1 && i < n; i++ {
		Check("kept", SameJSON(v[i], at(i)), "an element that occurs once is given up")
	}
}

// H_P11_dozen: a long list of values and values that are long.
func H_P11_dozen() {
	n := []int{6, 11, 20}[Choice("values", 3)]
	l := L{}
	wide := M{}
	long := L{}
	for i := 0; i < n; i++ {
		wide["k"+digits(i)] = i
		long = append(long, i)
	}
	switch Choice("kind", 4) {
	case 0: // all but the last one are ruled out
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		s := M{"enum": l, "minimum": n - 1}
		g, err := parse(s)
		Check("accepted-iff-possible", clean(g, err), "an enum with a qualifying value is rejected")
		if clean(g, err) {
			Check("listed", SameJSON(g.Generate(opts()), n-1), "a value that does not qualify is generated")
		}
		return
	case 1:
		l = append(l, wide)
	case 2:
		l = append(l, long)
	case 3: // nested
		var v any = "x"
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = L{v, i}
			} else {
				v = M{"in": v}
			}
		}
		l = append(l, v)
	}
	s := M{"const": l[0]}
	if Bool("next to limits?") {
		switch x := l[0].(type) {
		case L:
			s["maxItems"], s["minItems"] = len(x), len(x)
		case M:
			s["maxProperties"], s["minProperties"] = len(x), len(x)
		}
	}
	g, err := parse(s)
	Check("accepted-iff-possible", clean(g, err), "a const that qualifies is rejected")
	if clean(g, err) {
		Check("constant", SameJSON(g.Generate(opts()), l[0]), "something else than the constant is generated")
	}
}

// H_P12_dozen: a dozen branches, any two of which say the same.
func H_P12_dozen() {
	n := []int{4, 7, 10}[Choice("branches", 3)]
	a := Choice("one", n)
	b := Choice("the same", n)
	Assume(a < b)
	l := L{}
	for i := 0; i < n; i++ {
		if i == b {
			l = append(l, M{"const": a})
		} else {
			l = append(l, M{"const": i})
		}
	}
	s := M{"oneOf": l}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts = 1
	v := g.Generate(o)
	if !failed(v, "oneOf", 1) {
		Check("exactly-one", matches(s, l, v) == 1, "a value matching no branch or several ones is returned")
	}
}

// H_P13_dozen: a dozen branches, each of which can be chosen.
func H_P13_dozen() {
	n := []int{6, 9, 12}[Choice("branches", 3)]
	l := L{}
	for i := 0; i < n; i++ {
		l = append(l, M{"const": i})
	}
	s := M{"anyOf": l}
	g, err := parse(s)
	Check("accepted", clean(g, err), "an anyOf of constants is rejected")
	if !clean(g, err) {
		return
	}
	v, isNum := asNum(g.Generate(opts()))
	Check("number", isNum, "no branch value generated")
	for i := 0; i < n; i++ {
		lab := "branch " + digits(i) + " of many (" + digits(n) + ")"
		Expect(lab)
		Cover(lab, v == float64(i))
	}
}

// H_P14_dozen: a dozen branches with the deciding limit in any of them.
func H_P14_dozen() {
	n := []int{4, 7, 12}[Choice("branches", 3)]
	at := Choice("deciding", n)
	kind := Choice("kind", 7)
	l := L{}
	props := M{}
	for i := 0; i < n; i++ {
		props["p"+digits(i)] = M{"const": i}
		b := M{}
		switch kind {
		case 0:
			b["minimum"] = i - n
			if i == at {
				b["minimum"] = 50
			}
		case 1:
			b["enum"] = L{1, 2, 3}
			if i == at {
				b["enum"] = L{2}
			}
		case 2:
			b["required"] = L{"r" + digits(i)}
		case 3:
			b["properties"] = M{"p": M{"minimum": 0}}
			if i == at {
				b["properties"] = M{"p": M{"minimum": 50}}
			}
		case 4:
			b["minItems"] = 1
			if i == at {
				b["minItems"] = 3
			}
		case 5:
			b["type"] = L{"integer", "string", "null"}
			if i == at {
				b["type"] = L{"integer"}
			}
		case 6:
			b["not"] = M{"const": i}
		}
		l = append(l, b)
	}
	s := M{"allOf": l}
	switch kind {
	case 0:
		s["type"], s["maximum"] = "integer", 52
	case 2:
		Assume(at == 0)
		s["type"], s["additionalProperties"], s["properties"] = "object", M{"const": 1}, M{"r0": M{"const": 0}}
	case 3:
		s["type"], s["required"], s["additionalProperties"] = "object", L{"p"}, M{"const": 1}
		s["properties"] = M{"p": M{"type": "integer", "maximum": 52}}
	case 4:
		s["type"], s["items"], s["maxItems"] = "array", M{"const": "i"}, 3
	case 6:
		Assume(at == 0)
		s["type"], s["minimum"], s["maximum"] = "integer", 0, n
	}
	g, err := parse(s)
	if kind != 6 {
		Check("accepted", clean(g, err), "branches that go together are rejected")
	}
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumUniqueGeneratorAttempts, o.DefaultObjectMaxProperties = 1, 2
	v := g.Generate(o)
	if !gaveUp(v) {
		Check("every-branch", Valid(s, s, v), "a value violates one of the branches")
	}
}

// H_P15_dozen: half a dozen negated schemas, each of which counts.
func H_P15_dozen() {
	n := []int{4, 6, 9}[Choice("negations", 3)]
	kind := Choice("kind", 3)
	l := L{}
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			l = append(l, M{"const": i})
		case 1:
			l = append(l, M{"minimum": 20 - i})
		case 2:
			l = append(l, M{"maximum": i})
		}
	}
	s := M{"type": "integer", "minimum": 0, "maximum": 20}
	if kind == 0 && Bool("as one list?") {
		vals := L{}
		for i := 0; i < n; i++ {
			vals = append(vals, i)
		}
		s["not"] = M{"enum": vals}
		excluded(s, L{s["not"]}, true)
		return
	}
	all := L{}
	for _, x := range l {
		all = append(all, M{"not": x})
	}
	s["allOf"] = all
	excluded(s, l, kind == 0)
}

// H_P16_dozen: four (five) conditions, each of which may be the one that counts.
func H_P16_dozen() {
	n := []int{3, 4, 5}[Choice("conditions", 3)]
	at := n - 1
	if n < size(5, 6) {
		at = Choice("deciding", n)
	}
	otherwise := Bool("else?")
	conds := L{}
	for i := 0; i < n; i++ {
		c := M{"if": M{"minimum": 100}, "then": M{"minimum": -i}}
		if i == at {
			c = M{"if": M{"minimum": 0}, "then": M{"const": 8}}
			if otherwise {
				c = M{"if": M{"minimum": 50}, "else": M{"const": 8}}
			}
		}
		conds = append(conds, c)
	}
	s := M{"enum": L{3, 8}, "allOf": conds}
	runIf(s, conds, 1)
}

// H_P17_dozen: a chain of references, long pointers, many definitions (also where nothing but the references leads to) and names far down.
func H_P17_dozen() {
	n := []int{4, 7, 11}[Choice("length", 3)]
	want := M{"const": "here"}
	doc := M{}
	switch kind := Choice("kind", 5); kind {
	case 4:
		// A name of its own far down, relative to the nearest one above
		deep := M{"$id": "leaf.json", "const": "here"}
		for i := 0; i < n; i++ {
			deep = M{"type": "object", "properties": M{"p": deep}}
		}
		deep["$id"] = "sub/"
		doc = M{"$id": "http://a.test/root/", "$defs": M{"d": deep, "e": M{"$id": "leaf.json", "const": "elsewhere"}}, "$ref": []string{"sub/leaf.json", "http://a.test/root/sub/leaf.json"}[Choice("written", 2)]}
	case 0:
		defs := M{"d0": want}
		for i := 1; i < n; i++ {
			defs["d"+digits(i)] = M{"$ref": "#/$defs/d" + digits(i-1)}
		}
		doc = M{"$defs": defs, "$ref": "#/$defs/d" + digits(n-1)}
	case 1:
		var in any = want
		ref := "#"
		for i := 0; i < n; i++ {
			in = M{"type": "object", "properties": M{"p": in}}
			ref += "/properties/p"
		}
		doc = M{"$defs": M{"d": in}, "$ref": "#/$defs/d" + ref[1:]}
	case 2, 3:
		// Definitions, and places that nothing but the references leads to
		at := []string{"$defs", "$defs/null/properties"}[kind-2]
		defs, props, req := M{}, M{}, L{}
		for i := 0; i < n; i++ {
			defs["d"+digits(i)] = M{"const": i}
			props["p"+digits(i)] = M{"$ref": "#/" + at + "/d" + digits(i)}
			req = append(req, "p"+digits(i))
		}
		if kind == 3 {
			defs = M{"null": M{"type": "null", "properties": defs}}
		}
		doc = M{"$defs": defs, "type": "object", "properties": props, "required": req, "additionalProperties": false}
	}
	g, err := parse(doc)
	Check("accepted", clean(g, err), "references within the document are rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumReferenceDepth = n + 1
	v := g.Generate(o)
	if doc["$ref"] != nil {
		Check("designated", SameJSON(v, "here"), "a value of something else than what the pointer designates")
		return
	}
	m, _ := v.(map[string]any)
	for i := 0; i < n; i++ {
		Check("designated", SameJSON(m["p"+digits(i)], i), "a value of something else than what the pointer designates")
	}
}

// H_P18_dozen: a long way round through several definitions.
func H_P18_dozen() {
	n := []int{3, 5, 8}[Choice("definitions", 3)]
	bypass := Bool("bypass?")
	defs := M{}
	for i := 0; i < n; i++ {
		next := M{"$ref": "#/$defs/d" + digits((i+1)%n)}
		if i%2 == 0 {
			defs["d"+digits(i)] = M{"type": "object", "properties": M{"n": next}, "required": L{"n"}, "additionalProperties": false}
		} else {
			defs["d"+digits(i)] = M{"type": "array", "items": next, "minItems": 1, "maxItems": 1}
		}
	}
	g, err := parse(M{"$defs": defs, "$ref": "#/$defs/d0"})
	Check("accepted", clean(g, err), "a schema that refers to itself is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.BypassCyclicReferenceCheck = bypass
	o.MaximumReferenceDepth = 14
	v := g.Generate(o)
	checkCuts(v, bypass, false)
	if bypass {
		Check("depth", nest(v) >= n, "the recursion is cut off before the way round is complete")
		Check("depth-limit", nest(v) <= 15, "the nesting goes beyond the maximum depth")
	} else {
		Check("depth", nest(v) == n, "the recursion is not cut off where the way round is complete")
	}
}

// H_P26_dozen: each of a dozen parts that are broken is reported.
func H_P26_dozen() {
	n := []int{3, 6, 12}[Choice("parts", 3)]
	at := Choice("broken", n)
	list := Bool("in a list?")
	props, l := M{}, L{}
	for i := 0; i < n; i++ {
		p := M{"type": "integer", "minimum": 1, "maximum": 2}
		if i == at {
			p = M{"type": "integer", "minimum": 2, "maximum": 1}
		}
		props["p"+fmt.Sprint(i)] = p
		l = append(l, p)
	}
	s := M{"type": "object", "properties": props}
	if list {
		s = M{"type": "array", "prefixItems": l}
	}
	g, err := parse(s)
	Check("reported", err != nil || g.Metadata.Errors.HasErrors(), "a contradiction is not reported")
}

// H_P32_dozen: a dozen elements or names that are accounted for.
func H_P32_dozen() {
	n := []int{4, 8, 12}[Choice("accounted for", 3)]
	pre := L{}
	for i := 0; i < n; i++ {
		pre = append(pre, M{"const": i})
	}
	s := M{"type": "array", "prefixItems": pre, "minItems": n}
	var rest any = false
	if Bool("more?") {
		rest = M{"const": "u"}
		s["minItems"], s["maxItems"] = n+3, n+3
	}
	s["unevaluatedItems"] = rest
	g, err := parse(s)
	ok := clean(g, err)
	Check("accepted", ok, "a satisfiable schema with unevaluatedItems is rejected")
	if !ok {
		return
	}
	checkArray(generated(g, opts()), s["minItems"].(int), 1<<30, pre, rest, true)
}

// H_P01_dozen: narrow ranges far from zero.
func H_P01_dozen() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	far := []int{1000000, 1 << 31, 1 << 32, 1 << 40, 1 << 50, -1000000, -(1 << 31), -(1 << 40), -(1 << 50)}[Choice("far", 9)]
	lo, hi := "minimum", "maximum"
	if Bool("exclusive?") {
		lo, hi = "exclusiveMinimum", "exclusiveMaximum"
	}
	s := M{"type": typ, lo: float64(far + Int("lower", -4, 4))}
	if Bool("upper?") {
		s[hi] = float64(far + Int("upper", -4, 8))
	}
	checkNumber(s)
}

// H_P02_dozen: multiples that are far apart and ranges far from zero.
func H_P02_dozen() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	d := []int{12, 1000, 65536, 1 << 31}[Choice("multipleOf", 4)]
	k := []int{0, 3, -7, 1000, -1000}[Choice("from", 5)]
	n := 1 + Choice("multiples", 12)
	checkNumber(M{"type": typ, "multipleOf": d, "minimum": float64(k*d - Choice("below", 2)), "maximum": float64((k + n) * d)})
}

// H_P03_dozen: whether narrow ranges far from zero hold a multiple.
func H_P03_dozen() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	d := []int{7, 100, 4096, 1 << 31}[Choice("multipleOf", 4)]
	k := []int{0, 3, -7, 1000, -1000}[Choice("at", 5)]
	lo, hi := Int("from", -3, 3), Int("to", -3, 3)
	accepted(M{"type": typ, "multipleOf": d, "minimum": float64(k*d + lo), "maximum": float64(k*d + hi)}, lo <= 0 && hi >= 0)
}

// H_P21_dozen: links that lead on to links, long lists of permitted directories and deep paths.
func H_P21_dozen() {
	FSCwd("/w")
	files := []string{"/w/d/f", "/o/f", "/w/1/2/3/4/5/6/7/8/f", "/w/1/2/3/4/5/6/7/9/f", "/w/1/2/3/f", "/f"}
	for _, f := range files {
		FSFile(f, `{"const":"own `+f+`"}`)
	}
	p := &chaff.ParserOptions{}
	fs := &p.DocumentFetchOptions.FileSystemFetchOptions
	fs.Enabled = true
	n := []int{3, 6, 10}[Choice("length", 3)]
	ref, target, permitted := "", "", false
	switch Choice("kind", 4) {
	case 0: // a link to a link to a link ...
		out := Bool("leads out?")
		fs.AllowOutsideCwd = Bool("outside allowed?")
		last := "/w/d"
		if out {
			last = "/o"
		}
		FSLink("/w/c"+digits(n), last)
		for i := 0; i < n; i++ {
			FSLink("/w/c"+digits(i), "c"+digits(i+1))
		}
		ref, target, permitted = "c0/f", last+"/f", !out || fs.AllowOutsideCwd
	case 1: // only one directory of many is the right one
		for i := 0; i < n; i++ {
			FSFile("/w/x"+digits(i)+"/f", "{}")
			fs.AllowedPaths = append(fs.AllowedPaths, "x"+digits(i))
		}
		if Bool("permitted?") {
			permitted = true
			fs.AllowedPaths[Choice("right one", n)] = "d"
		}
		ref, target = "d/f", "/w/d/f"
	case 2: // up and down again
		down := "1/2/3/4/5/6/7/8"
		ups := Choice("ups", 10)
		ref = down
		for i := 0; i < ups; i++ {
			ref += "/.."
		}
		ref += "/f"
		switch ups {
		case 0:
			target, permitted = "/w/1/2/3/4/5/6/7/8/f", true
		case 5:
			target, permitted = "/w/1/2/3/f", true
		}
		if ups == 9 {
			target = "/f"
		}
		Assume(ups == 0 || ups == 5 || ups == 9)
	case 3: // a permitted directory far up
		fs.AllowedPaths = []string{"d", "1/2"}
		ref, target, permitted = "1/2/3/4/5/6/7/8/f", "/w/1/2/3/4/5/6/7/8/f", true
		if Bool("next to it?") {
			fs.AllowedPaths[1] = "1/2/3/4/5/6/7/9"
			permitted = false
		}
	}
	g, err := chaff.ParseSchema(JSON(placeFileRef(Choice("place", 3), ref)), p)
	if !permitted {
		Check("rejected", !clean(g, err), "a reference to a file that is not permitted is accepted")
		Check("only-permitted", len(Accesses()) == 0, "a file outside of the permitted directories is read")
		return
	}
	Check("permitted-accepted", clean(g, err), "a reference to a permitted file is rejected")
	if clean(g, err) {
		Check("permitted-target", SameJSON(find(g.Generate(opts())), "own "+target), "a reference to a permitted file leads elsewhere")
	}
}

// H_P22_dozen: redirects that lead on to redirects and long lists of permitted hosts.
func H_P22_dozen() {
	p := &chaff.ParserOptions{}
	h := &p.DocumentFetchOptions.HTTPFetchOptions
	h.Enabled = true
	n := []int{3, 5, 8}[Choice("length", 3)]
	bad := Choice("not permitted", n+1) // n: all of them are
	secure := true
	if Bool("hops?") {
		h.AllowedHosts = []string{"a.test"}
		how := Choice("how", 2)
		for i := 0; i < n; i++ {
			from := "https://a.test/" + digits(i)
			to := "https://a.test/" + digits(i+1)
			if i+1 == bad {
				to = []string{"https://b.test/", "http://a.test/"}[how] + digits(i+1)
			}
			if i > 0 && i == bad {
				from = []string{"https://b.test/", "http://a.test/"}[how] + digits(i)
			}
			HTTPServe(from, 302, to, "")
		}
		if bad == n {
			HTTPServe([]string{"https://b.test/", "http://a.test/"}[how]+digits(n), 200, "", `{"const":"x"}`)
		} else {
			HTTPServe("https://a.test/"+digits(n), 200, "", `{"const":"x"}`)
		}
		secure = bad == 0
	} else {
		for i := 0; i < n; i++ {
			h.AllowedHosts = append(h.AllowedHosts, "h"+digits(i)+".test")
		}
		if bad < n {
			h.AllowedHosts[bad] = "a.test"
		}
		secure = bad < n
		HTTPServe("https://a.test/0", 200, "", `{"const":"x"}`)
	}
	g, err := chaff.ParseSchema(JSON(placeFileRef(Choice("place", 3), "https://a.test/0")), p)
	for _, x := range Accesses() {
		Check("only-permitted", strings.HasPrefix(x, "http https://a.test/"), "a request goes to a host or over a scheme that is not permitted")
	}
	if secure {
		Check("permitted-accepted", clean(g, err), "a reference to a permitted host is rejected")
		if clean(g, err) {
			Check("permitted-target", SameJSON(find(g.Generate(opts())), "x"), "a reference to a permitted host leads elsewhere")
		}
	} else {
		Check("rejected", !clean(g, err), "a reference that leads to no permitted document is accepted")
	}
}

// siblings generates from an object or array with a dozen parts of the same shape and checks
// that each of them has the value its own schema leaves.
func siblings(part func(i int) M, want func(i int) any) {
	n := []int{3, 6, 13}[Choice("parts", 3)]
	props, l, req := M{}, L{}, L{}
	for i := 0; i < n; i++ {
		props["p"+digits(i)] = part(i)
		req = append(req, "p"+digits(i))
		l = append(l, part(i))
	}
	s := M{"type": "object", "properties": props, "required": req, "additionalProperties": false}
	kind := Choice("kind", 3)
	switch kind {
	case 1:
		s = M{"type": "array", "prefixItems": l, "items": false, "minItems": n}
	case 2:
		defs := M{}
		for i := 0; i < n; i++ {
			defs["d"+digits(i)] = part(i)
			props["p"+digits(i)] = M{"$ref": "#/$defs/d" + digits(i)}
		}
		s["$defs"] = defs
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "a schema with several parts of the same shape is rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumOneOfAttempts, o.MaximumIfAttempts, o.MaximumUniqueGeneratorAttempts = 1, 1, 1
	v := g.Generate(o)
	m, _ := v.(map[string]any)
	a, _ := v.([]any)
	for i := 0; i < n; i++ {
		var x any
		if kind == 1 && i < len(a) {
			x = a[i]
		} else {
			x = m["p"+digits(i)]
		}
		Check("own-schema", SameJSON(x, want(i)), "a part has a value that its schema rules out")
	}
}

func itself(i int) any { return i }

func H_P01_siblings() {
	siblings(func(i int) M { return M{"type": "integer", "minimum": i, "maximum": i} }, itself)
}

func H_P02_siblings() {
	siblings(func(i int) M {
		return M{"type": "integer", "multipleOf": i + 2, "minimum": i + 1, "maximum": i + 3}
	}, func(i int) any { return i + 2 })
}

func H_P05_siblings() {
	siblings(func(i int) M { return M{"type": "string", "pattern": "^a" + digits(i) + "b$"} }, func(i int) any { return "a" + digits(i) + "b" })
}

func H_P06_siblings() {
	siblings(func(i int) M {
		return M{"type": "object", "properties": M{"a": M{"const": i}}, "required": L{"a"}, "additionalProperties": false}
	}, func(i int) any { return M{"a": i} })
}

func H_P08_siblings() {
	siblings(func(i int) M {
		return M{"type": "array", "prefixItems": L{M{"const": i}}, "items": M{"const": -i}, "minItems": 2, "maxItems": 2}
	}, func(i int) any { return L{i, -i} })
}

func H_P09_siblings() {
	siblings(func(i int) M {
		return M{"type": "array", "contains": M{"const": i}, "minContains": 1, "maxContains": 1, "items": M{"type": "integer"}, "maxItems": 1}
	}, func(i int) any { return L{i} })
}

func H_P11_siblings() {
	siblings(func(i int) M { return M{"enum": L{i - 1, i, i + 1}, "minimum": i, "maximum": i} }, itself)
}

func H_P12_siblings() {
	siblings(func(i int) M { return M{"oneOf": L{M{"const": i}}, "type": "integer"} }, itself)
}

func H_P13_siblings() {
	siblings(func(i int) M { return M{"anyOf": L{M{"const": i}}, "type": "integer"} }, itself)
}

func H_P14_siblings() {
	siblings(func(i int) M {
		return M{"allOf": L{M{"type": "integer", "minimum": i}, M{"maximum": i}}}
	}, itself)
}

func H_P15_siblings() {
	siblings(func(i int) M {
		return M{"type": "integer", "minimum": i, "maximum": i + 1, "not": M{"minimum": i + 1}}
	}, itself)
}

func H_P16_siblings() {
	siblings(func(i int) M {
		return M{"type": "integer", "minimum": i, "maximum": i, "if": M{"minimum": i}, "then": M{"maximum": i}}
	}, itself)
}

// H_P14_wide: branches with many properties or patterns, and a branch at the end of a chain of references.
func H_P14_wide() {
	n := []int{3, 6, 9}[Choice("parts", 3)]
	digit := M{"type": "integer", "minimum": 0, "maximum": 9}
	var s M
	mine, theirs, req, defs := M{}, M{}, L{}, M{"d0": M{"const": 5}}
	kind := Choice("kind", 5)
	for i := 0; i < n; i++ {
		req = append(req, "p"+digits(i))
		mine["p"+digits(i)] = M{"type": "integer", "minimum": i}
		theirs["p"+digits(i)] = M{"maximum": i}
		if i > 0 {
			defs["d"+digits(i)] = M{"$ref": "#/$defs/d" + digits(i-1)}
		}
		if kind >= 2 {
			mine["p"+digits(i)] = digit
		}
		if kind == 3 {
			delete(mine, "p"+digits(i))
			mine["^p"+digits(i)+"$"] = digit
		}
	}
	switch kind {
	case 0:
		s = M{"$defs": defs, "type": "integer", "allOf": L{digit, M{"$ref": "#/$defs/d" + digits(n-1)}}}
	case 1:
		s = M{"allOf": L{M{"properties": mine}, M{"properties": theirs}}}
	case 2:
		s = M{"allOf": L{M{"properties": mine}, M{"additionalProperties": M{"enum": L{4, "x"}}}}}
	case 3:
		s = M{"allOf": L{M{"patternProperties": mine}, M{"additionalProperties": M{"enum": L{4, "x"}}}}}
	case 4:
		s = M{"allOf": L{M{"properties": mine}, M{"patternProperties": M{"^p": M{"maximum": 4}}}}}
	}
	if kind > 0 {
		s["type"], s["required"], s["maxProperties"] = "object", req, n
	}
	g, err := parse(s)
	Check("accepted", clean(g, err), "branches that go together are rejected")
	if !clean(g, err) {
		return
	}
	o := opts()
	o.MaximumReferenceDepth = 12
	v := g.Generate(o)
	if !gaveUp(v) {
		Check("every-branch", Valid(s, s, v), "a value violates one of the branches")
	}
}
