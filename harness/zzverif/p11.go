package zzverif

// listed draws one listed value.
func listed(name string) any {
	l := []any{nil, false, true, 0, 1, 2.5, "", "a", "abc", L{}, L{1}, M{}, M{"k": 1}}
	return l[Choice(name, len(l))]
}

// beside draws keywords standing next to enum or const.
func beside(s M) {
	switch Choice("keywords", 8) {
	case 1:
		s["type"] = []any{"string", "integer", "null", "boolean", "array", "object", "number"}[Choice("type", 7)]
	case 2:
		s["minimum"] = Int("minimum", -3, 3)
	case 3:
		s["maxLength"] = Int("maxLength", 0, 4)
	case 4:
		s["required"] = L{"k"}
	case 5:
		s["minItems"] = 1
	case 6:
		s["type"] = L{"string", "null"}
	case 7:
		s["multipleOf"] = 0.5
		s["exclusiveMaximum"] = Int("exclusiveMaximum", -1, 3)
	}
}

// H_P11_const: a const of any kind next to other keywords.
func H_P11_const() {
	c := listed("const")
	s := M{"const": c}
	beside(s)
	g, err := parse(s)
	ok := clean(g, err)
	qualifies := Valid(s, s, c)
	Check("accepted-iff-possible", ok == qualifies, "const is accepted although it contradicts the other keywords, or rejected although it does not")
	if ok {
		Check("constant", SameJSON(g.Generate(opts()), c), "something else than the constant is generated")
	}
}

// H_P11_enum: two or three listed values next to other keywords.
func H_P11_enum() {
	l := L{listed("first"), listed("second")}
	if Thorough() {
		l = append(l, listed("third"))
	}
	s := M{"enum": l}
	beside(s)
	g, err := parse(s)
	ok := clean(g, err)
	any1 := false
	for _, x := range l {
		if Valid(s, s, x) {
			any1 = true
		}
	}
	Check("accepted-iff-possible", ok == any1, "enum is accepted although no value qualifies, or rejected although one does")
	if !ok {
		return
	}
	v := g.Generate(opts())
	among := false
	for _, x := range l {
		if SameJSON(x, v) {
			among = true
		}
	}
	Check("listed", among, "a value outside the enum is generated")
	Check("qualifies", Valid(s, s, v), "a listed value that violates the other keywords is generated")
}

// H_P11_reach: every qualifying value can be generated.
func H_P11_reach() {
	a := Choice("a", 5)
	s := M{"enum": L{10, 11, 12, 13, 14}, "minimum": 10 + a}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	v, _ := asNum(g.Generate(opts()))
	for i := 0; i < 5; i++ {
		if i >= a {
			l := "enum " + digits(a) + "/" + digits(i)
			Expect(l)
			Cover(l, v == float64(10+i))
		}
	}
}

// H_P11_both: const and enum together, and inside an object.
func H_P11_both() {
	c := listed("const")
	l := L{listed("first"), 1}
	s := M{"const": c, "enum": l}
	var doc any = s
	nested := Bool("nested?")
	if nested {
		doc = M{"type": "object", "properties": M{"p": s}, "required": L{"p"}}
	}
	g, err := parse(doc)
	ok := clean(g, err)
	qualifies := Valid(doc, s, c)
	Check("accepted-iff-possible", ok == qualifies, "const with enum is judged wrongly")
	if !ok {
		return
	}
	v := g.Generate(opts())
	if nested {
		o, _ := v.(map[string]any)
		v = o["p"]
	}
	Check("constant", SameJSON(v, c), "something else than the constant is generated")
}

// H_P11_alike: properties whose names look alike have their own lists.
func H_P11_alike() {
	alike(M{"enum": L{1, 2, 3}, "minimum": Int("lower", 1, 3)}, M{"enum": L{1, 2, 3}, "maximum": Int("upper", 1, 3)}, func(v any) bool { return false })
}
