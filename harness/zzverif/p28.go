package zzverif

import (
	"strings"

	"github.com/ryanolee/go-chaff/rand"
)

// H_P28_int: integers of half-open ranges.
func H_P28_int() {
	lo, hi := Int("min", -1000, 1000), Int("max", -1000, 1000)
	Assume(lo <= hi)
	r := Rand()
	var v int
	p := Catch(func() { v = r.RandomInt(lo, hi) })
	Check("no-panic", p == "", "a valid range makes RandomInt panic: "+p)
	if p != "" {
		return
	}
	if lo == hi {
		Check("single", v == lo, "an empty range yields something else than its only bound")
		return
	}
	Check("at-least-min", v >= lo, "an integer below the lower bound is drawn")
	Check("below-max", v < hi, "an integer at or above the upper bound is drawn")
	Expect("lowest")
	Expect("highest")
	Cover("lowest", v == lo)
	Cover("highest", v == hi-1)
}

// H_P28_float: numbers of closed ranges.
func H_P28_float() {
	lo, hi := Float("min", -1000, 1000, 8), Float("max", -1000, 1000, 8)
	Assume(lo <= hi)
	r := Rand()
	var v float64
	p := Catch(func() { v = r.RandomFloat(lo, hi) })
	Check("no-panic", p == "", "a valid range makes RandomFloat panic: "+p)
	if p == "" {
		Check("at-least-min", v >= lo, "a number below the lower bound is drawn")
		Check("at-most-max", v <= hi, "a number above the upper bound is drawn")
		Expect("lower part")
		Expect("upper part")
		Cover("lower part", lo < hi && v < lo+(hi-lo)/4)
		Cover("upper part", lo < hi && v > hi-(hi-lo)/4)
	}
}

// H_P28_bool: both truth values are drawn.
func H_P28_bool() {
	v := Rand().RandomBool()
	Expect("true")
	Expect("false")
	Cover("true", v)
	Cover("false", !v)
}

// H_P28_choice: a choice is an element of the list, and each can be drawn.
func H_P28_choice() {
	n := 1 + Choice("length", size(4, 8))
	names := []string{"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"}
	texts := append([]string{}, names[:n]...)
	values := make([]any, n)
	for i := range values {
		values[i] = names[i]
	}
	r := Rand()
	var v any
	texted := Bool("texts?")
	p := Catch(func() {
		if texted {
			v = r.StringChoice(&texts)
		} else {
			v = r.Choice(values)
		}
	})
	Check("no-panic", p == "", "a list with elements makes a choice panic: "+p)
	at := -1
	for i := 0; i < n; i++ {
		if v == any(names[i]) {
			at = i
		}
	}
	Check("element", p != "" || at >= 0, "something that is not in the list is chosen")
	same := true
	for i := range values {
		same = same && values[i] == any(names[i]) && texts[i] == names[i]
	}
	Check("list-kept", same, "choosing changes the list of the caller")
	if texted {
		Expect("first text")
		Expect("last text")
		Cover("first text", n > 1 && at == 0)
		Cover("last text", n > 1 && at == n-1)
	} else {
		Expect("first value")
		Expect("last value")
		Cover("first value", n > 1 && at == 0)
		Cover("last value", n > 1 && at == n-1)
	}
}

// H_P28_several: several choices come from different positions.
func H_P28_several() {
	n := Choice("length", size(4, 5)+1)
	k := Int("choices", 0, n)
	names := []string{"e0", "e1", "e2", "e3", "e4"}
	texts := append([]string{}, names[:n]...)
	var v []string
	r := Rand()
	p := Catch(func() { v = r.StringChoiceMultiple(&texts, k) })
	Check("no-panic", p == "", "choosing from a list makes StringChoiceMultiple panic: "+p)
	if p != "" {
		return
	}
	Check("amount", len(v) == k, "another number of choices is returned than asked for")
	used := map[string]bool{}
	for _, x := range v {
		in := false
		for _, y := range names[:n] {
			in = in || x == y
		}
		Check("element", in, "something that is not in the list is chosen")
		Check("distinct", !used[x], "one position is chosen twice")
		used[x] = true
	}
	same := len(texts) == n
	for i := 0; same && i < n; i++ {
		same = texts[i] == names[i]
	}
	Check("list-kept", same, "choosing changes the list of the caller")
	Expect("first left out")
	Expect("last chosen first")
	if k > 0 {
		Cover("first left out", k < n && !used["e0"])
		Cover("last chosen first", n > 1 && v[0] == names[n-1])
	}
}

// H_P28_shuffle: a shuffle holds the same elements.
func H_P28_shuffle() {
	n := Choice("length", size(4, 5)+1)
	in := make([]any, n)
	for i := range in {
		in[i] = i / 2
	}
	var out []any
	r := Rand()
	p := Catch(func() { out = r.Shuffle(in) })
	Check("no-panic", p == "", "Shuffle panics: "+p)
	if p != "" {
		return
	}
	Check("length", len(out) == n, "a shuffled list has another length")
	for k := 0; k <= n/2; k++ {
		a, b := 0, 0
		for i := range in {
			if in[i] == any(k) {
				a++
			}
		}
		for i := range out {
			if out[i] == any(k) {
				b++
			}
		}
		Check("elements", a == b, "a shuffled list holds other elements")
	}
	kept := true
	for i := range in {
		kept = kept && in[i] == any(i/2)
	}
	Check("list-kept", kept, "Shuffle changes the list of the caller")
	if n == 4 {
		Expect("last becomes first")
		Cover("last becomes first", out[0] == any(1) && out[3] == any(0))
	}
}

// sequence draws a few values of one kind, and a number after them.
func sequence(r *rand.RandUtil, kind int) []any {
	l := []any{"a", "b", "c"}
	t := []string{"x", "y", "z"}
	var out []any
	switch kind {
	case 0:
		out = append(out, r.RandomInt(-5, 5), r.RandomInt(0, 100))
	case 1:
		out = append(out, r.RandomFloat(0, 1), r.RandomFloat(-1, 3))
	case 2:
		out = append(out, r.RandomBool(), r.RandomBool())
	case 3:
		out = append(out, r.Choice(l), r.StringChoice(&t))
	case 4:
		for _, x := range r.StringChoiceMultiple(&t, 2) {
			out = append(out, x)
		}
	case 5:
		out = append(out, r.Shuffle(l)...)
	}
	return append(out, r.RandomInt(0, 1000))
}

// H_P28_seeds: equal seeds give equal sequences.
func H_P28_seeds() {
	var a, b *rand.RandUtil
	if Bool("text?") {
		s := Text("seed", 3, "ab\u00e9")
		if Bool("long?") {
			s = strings.Repeat("a longer seed ", 10) + s
		}
		a, b = rand.NewRandUtilFromString(s), rand.NewRandUtilFromString(s)
	} else {
		s := Int("seed", -1000000, 1000000)
		a, b = rand.NewRandUtil(int64(s)), rand.NewRandUtil(int64(s))
	}
	kind := Choice("kind", 6)
	x, y := sequence(a, kind), sequence(b, kind)
	same := len(x) == len(y)
	for i := 0; same && i < len(x); i++ {
		same = x[i] == y[i]
	}
	Check("equal-sequences", same, "equal seeds give different sequences")
}

// H_P28_source: the exposed source and generator belong together.
func H_P28_source() {
	s := int64(Int("seed", -1000, 1000))
	a, b := rand.NewRandUtil(s), rand.NewRandUtil(s)
	Check("source-set", a.Source != nil && a.Rand != nil, "a random source is missing")
	if a.Source != nil && a.Rand != nil && b.Rand != nil {
		Check("same-source", a.Source.Int63() == b.Rand.Int63(), "the source does not belong to the generator")
	}
	c := rand.NewRandUtilFromTime()
	v := c.RandomInt(3, 9)
	Check("time-range", v >= 3 && v < 9, "a source seeded by time leaves the range")
}
