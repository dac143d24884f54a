package zzverif

// numSchema draws a numeric schema: each bound keyword independently present,
// with arbitrary values of the grid.
func numSchema(typ string, lo, hi float64, grid int, keys ...string) M {
	s := M{"type": typ}
	for _, k := range keys {
		if Bool(k + "?") {
			s[k] = Float(k, lo, hi, grid)
		}
	}
	return s
}

var boundKeys = []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}

func checkNumber(s M) {
	g, err := parse(s)
	Observe("err", err)
	if err != nil {
		return
	}
	v := g.Generate(opts())
	Observe("v", v)
	Check("within-bounds", Valid(s, s, v), "generated number violates its schema")
}

func H_P01_integer() {
	checkNumber(numSchema("integer", -40, 40, 0, boundKeys...))
}

func H_P01_number() {
	checkNumber(numSchema("number", -40, 40, 2, boundKeys...))
}

// H_P01_fraction: integer bounds with fractions.
func H_P01_fraction() {
	checkNumber(numSchema("integer", -3, 3, 2, boundKeys...))
}

// H_P01_reach: both ends of an integer range are generated.
func H_P01_reach() {
	rs := [][2]float64{{0, 1}, {-3, 4}, {5, 7}, {-9, -8}, {0, 0}}
	k := Choice("range", len(rs))
	lo, hi := rs[k][0], rs[k][1]
	name := string(rune('a' + k))
	Expect("reaches-minimum-" + name)
	Expect("reaches-maximum-" + name)
	s := M{"type": "integer", "minimum": lo, "maximum": hi}
	if Bool("exclusive?") {
		s = M{"type": "integer", "exclusiveMinimum": lo - 1, "exclusiveMaximum": hi + 1}
	}
	g, err := parse(s)
	if err != nil {
		return
	}
	v, _ := asNum(g.Generate(opts()))
	Cover("reaches-minimum-"+name, v == lo)
	Cover("reaches-maximum-"+name, v == hi)
}

// H_P01_wide: bounds of large magnitude.
func H_P01_wide() {
	typ := []string{"integer", "number"}[Choice("type", 2)]
	unit := 1000000.0
	s := M{"type": typ}
	for _, k := range boundKeys {
		if Bool(k + "?") {
			s[k] = float64(Int(k, -4000, 4000)) * unit
		}
	}
	checkNumber(s)
}
