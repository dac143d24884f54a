package zzverif

// H_P02_integer: integer ranges of any size with a whole multipleOf.
func H_P02_integer() {
	d := []float64{1, 2, 3, 5, 7}[Choice("multipleOf", 5)]
	s := numSchema("integer", -25, 25, 0, "minimum", "maximum", "exclusiveMaximum")
	s["multipleOf"] = d
	checkNumber(s)
}

// H_P02_number: decimal multiples in ranges with quarter steps.
func H_P02_number() {
	d := []float64{0.5, 0.25, 2.5, 3, 0.1, 0.3, 0.01, 0.0007, 0.00003}[Choice("multipleOf", 9)]
	lo, hi := -2.0, 2.0
	if d == 0.01 {
		lo, hi = 0, 0.5
	}
	if d < 0.01 {
		lo, hi = 0, 20*d
	}
	s := M{"type": "number", "multipleOf": d}
	if d < 0.01 {
		s["minimum"], s["maximum"] = lo, hi
	} else {
		if Bool("minimum?") {
			s["minimum"] = Float("minimum", lo, hi, 2)
		}
		if Bool("maximum?") {
			s["maximum"] = Float("maximum", lo, hi, 2)
		}
	}
	checkNumber(s)
}

// H_P02_decimal: bounds that are decimals as well.
func H_P02_decimal() {
	d := []float64{0.1, 0.3, 0.7, 1.1}[Choice("multipleOf", 4)]
	b := []float64{-0.3, 0.1, 0.2, 0.3, 0.6, 0.7, 0.9, 1.1, 2.3, 3.3}
	s := M{"type": "number", "multipleOf": d, "minimum": b[Choice("minimum", len(b))], "maximum": b[Choice("maximum", len(b))]}
	checkNumber(s)
}
