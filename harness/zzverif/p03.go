package zzverif

func satisfiable(s M, v float64) bool { return validNumber(s, v) }

// accepted checks that s is accepted exactly when want holds.
func accepted(s M, want bool) {
	g, err := parse(s)
	ok := clean(g, err)
	Observe("accepted", ok)
	if want {
		Check("accepted-if-satisfiable", ok, "a satisfiable numeric schema is rejected")
	} else {
		Check("rejected-if-unsatisfiable", !ok, "a contradictory numeric schema is accepted")
	}
}

// H_P03_integer: the smallest whole number the lower bounds allow tells
// whether any whole number fits.
func H_P03_integer() {
	grid := 0
	if Bool("fractions?") {
		grid = 1
	}
	s := numSchema("integer", -20, 20, grid, boundKeys...)
	// some integer of [-22,22] decides
	w := Int("witness", -22, 22)
	g, err := parse(s)
	ok := clean(g, err)
	if validNumber(s, float64(w)) {
		Check("accepted-if-satisfiable", ok, "a satisfiable integer schema is rejected")
		return
	}
	if ok {
		v := g.Generate(opts())
		Check("accepted-has-value", Valid(s, s, v), "a contradictory integer schema is accepted")
	}
}

func H_P03_number() {
	s := numSchema("number", -20, 20, 2, boundKeys...)
	w := Float("witness", -21, 21, 3)
	g, err := parse(s)
	ok := clean(g, err)
	if validNumber(s, w) {
		Check("accepted-if-satisfiable", ok, "a satisfiable number schema is rejected")
		return
	}
	if ok {
		v := g.Generate(opts())
		Check("accepted-has-value", Valid(s, s, v), "a contradictory number schema is accepted")
	}
}

func H_P03_multiple() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	d := []float64{1, 2, 3, 5, 0.5, 0.1}[Choice("multipleOf", 6)]
	if typ == "integer" {
		Assume(d >= 1)
	}
	s := numSchema(typ, -12, 12, 0, "minimum", "maximum")
	s["multipleOf"] = d
	w := float64(Int("witness", -12, 12))
	g, err := parse(s)
	ok := clean(g, err)
	if validNumber(s, w) {
		Check("accepted-if-satisfiable", ok, "a satisfiable numeric schema is rejected")
		return
	}
	if ok {
		v := g.Generate(opts())
		Check("accepted-has-value", Valid(s, s, v), "a contradictory numeric schema is accepted")
	}
}

// H_P03_single: a range holding exactly one value yields that value.
func H_P03_single() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	grid := 2
	if typ == "integer" {
		grid = 0
	}
	x := Float("x", -1000, 1000, grid)
	s := M{"type": typ, "minimum": x, "maximum": x}
	g, err := parse(s)
	if !clean(g, err) {
		Check("single-accepted", false, "a range holding one value is rejected")
		return
	}
	v, ok := asNum(g.Generate(opts()))
	Check("single-generated", ok && v == x, "the only permitted value is not generated")
}

// H_P03_negative: a negative multipleOf is no schema at all.
func H_P03_negative() {
	d := Float("multipleOf", -50, -0.25, 2)
	typ := []string{"integer", "number"}[Choice("type", 2)]
	g, err := parse(M{"type": typ, "multipleOf": d})
	Check("negative-multiple-rejected", !clean(g, err), "a negative multipleOf is accepted")
}

// H_P03_wide: a single bound leaves room for multiples however far apart they are.
func H_P03_wide() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	d := []float64{11, 25, 40, 250, 0.25, 12.5}[Choice("multipleOf", 6)]
	if typ == "integer" {
		Assume(d >= 1 && d != 12.5)
	}
	s := M{"type": typ, "multipleOf": d}
	s[boundKeys[Choice("bound", len(boundKeys))]] = Int("limit", -60, 60)
	accepted(s, true)
}
