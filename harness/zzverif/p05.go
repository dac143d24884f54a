package zzverif

import (
	"regexp"
	"regexp/syntax"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/internal/regen"
)

// parseWithRepeats is parse with the default regular expression options except
// for the number of times an unbounded repeat may occur.
func parseWithRepeats(schema any, n uint) (chaff.RootGenerator, error) {
	args := &regen.GeneratorArgs{MaxUnboundedRepeatCount: n, SuppressRandomBytes: true, Flags: syntax.PerlX}
	Bound("unbounded repeats", "* and + occur at most "+digits(int(n))+" times unless the default options are used")
	return chaff.ParseSchema(JSON(schema), &chaff.ParserOptions{RegexStringOptions: args, RegexPatternPropertyOptions: args})
}

func repeatCap() uint {
	if Thorough() {
		return 5
	}
	return 3
}

// atom draws a building block of a regular expression.
func atom(name string) string {
	l := []string{"a", "[xyz]", "[0-9b]", "[^a-y]", ".", `\d`, `\w`, `\.`, "[.]", "(ab|c)", "(?:[ab]c)", `\s`, `[\w.-]`, `\\.`, "(?i)k"}
	return l[Choice(name, len(l))]
}

func repeat(name string) string {
	l := []string{"", "?", "*", "+", "{2}", "{1,3}", "{2,}", "{0,1}", "{0}"}
	return l[Choice(name, len(l))]
}

func checkPattern(p string, v any) {
	t, ok := v.(string)
	Check("string", ok, "no string generated")
	if ok {
		Check("matches", regexp.MustCompile(p).MatchString(t), "the string does not match the pattern")
	}
}

// H_P05_atoms: every block with every repeat, anchored at both ends.
func H_P05_atoms() {
	p := "^" + atom("block") + repeat("repeat") + "$"
	g, err := parseWithRepeats(M{"type": "string", "pattern": p}, repeatCap())
	ok := clean(g, err)
	Check("accepted", ok, "a supported pattern is rejected")
	if ok {
		checkPattern(p, g.Generate(opts()))
	}
}

// H_P05_defaults: the options every user gets.
func H_P05_defaults() {
	l := []string{"a", "[xyz]", ".", `\d`, `\w`, "[^a]", `\.`}
	p := "^" + l[Choice("block", len(l))] + []string{"*", "+", "{2,}"}[Choice("repeat", 3)] + "$"
	g, err := parse(M{"type": "string", "pattern": p})
	ok := clean(g, err)
	Check("accepted", ok, "a supported pattern is rejected")
	if ok {
		checkPattern(p, g.Generate(opts()))
	}
}

// H_P05_pairs: two blocks in sequence, alternation or nesting.
func H_P05_pairs() {
	l := []string{"a", "[^a-y]", ".", `\.`, "[.]", "(a|bc)"}
	r := []string{"", "?", "{1,2}"}
	if Thorough() {
		l = append(l, "[xy]", `\w`, `[^.]`)
		r = append(r, "{2}", "*")
	}
	b1, b2 := l[Choice("first", len(l))], l[Choice("second", len(l))]
	r1, r2 := r[Choice("first repeat", len(r))], r[Choice("second repeat", len(r))]
	var p string
	switch Choice("shape", 4) {
	case 0:
		p = "^" + b1 + r1 + b2 + r2 + "$"
	case 1:
		p = "^(" + b1 + r1 + "|" + b2 + r2 + ")$"
	case 2:
		Assume(r1 == "")
		p = "^(" + b1 + b2 + ")" + r2 + "$"
	case 3:
		p = b1 + r1 + "-" + b2 + r2
	}
	g, err := parse(M{"pattern": p})
	ok := clean(g, err)
	Check("accepted", ok, "a supported pattern is rejected")
	if ok {
		checkPattern(p, g.Generate(opts()))
	}
}

// H_P05_counts: repeat counts of every size.
func H_P05_counts() {
	hi := 7
	if Thorough() {
		hi = 14
	}
	a := Choice("least", hi)
	p := "^(a|bb){" + digits(a)
	if Bool("range?") {
		p += ","
		if Bool("bounded?") {
			b := Choice("most", hi)
			Assume(a <= b)
			p += digits(b)
		}
	}
	p += "}$"
	g, err := parseWithRepeats(M{"type": "string", "pattern": p}, repeatCap())
	ok := clean(g, err)
	Check("accepted", ok, "a supported pattern is rejected")
	if ok {
		checkPattern(p, g.Generate(opts()))
	}
}

func digits(n int) string {
	if n > 9 {
		return digits(n/10) + digits(n%10)
	}
	return string(rune('0' + n))
}

// H_P05_realistic: expressions as they appear in schemas.
func H_P05_realistic() {
	l := []string{
		`^[A-Z]{2}[0-9]{3}$`,
		`^(\([0-9]{3}\))?[0-9]{3}-[0-9]{4}$`,
		`^\d{4}-\d{2}-\d{2}$`,
		`^[a-z]+@[a-z]+\.(com|org)$`,
		`^#([0-9a-f]{3}|[0-9a-f]{6})$`,
		`^v?\d+\.\d+\.\d+$`,
		`^/(\w+/)*\w+\.txt$`,
		`^[^\\/A-Z]+$`,
		`^\$\{[A-Z_]+\}$`,
		`^(?P<year>\d{2})\.(?P<rest>.)$`,
		`^\s\d \w$`,
		`^[\x00a]$`,
		`^a\|b$`,
		`^\^\[\]$`,
		`^x\.*$`,
		`^$`,
		`\bcat\b`,
		`^[a-z-]{1,2}$`,
		`^[[:alpha:]]$`,
		`^(a*|b)+$`,
		`^é[à-ü]$`,
	}
	p := l[Choice("pattern", len(l))]
	g, err := parseWithRepeats(M{"type": "string", "pattern": p}, repeatCap())
	ok := clean(g, err)
	Check("accepted", ok, "a supported pattern is rejected")
	if ok {
		checkPattern(p, g.Generate(opts()))
	}
}

// H_P05_names: names of pattern properties.
func H_P05_names() {
	l := []string{`^a\.b$`, `^[.]$`, `^x.$`, `^(p|q)[0-9]{1,2}$`, `^\d{2}$`, `^[A-C]+$`}
	p := l[Choice("pattern", len(l))]
	s := M{"type": "object", "patternProperties": M{p: M{"const": 1}}, "additionalProperties": false}
	if Bool("minProperties?") {
		s["minProperties"] = 1
	}
	g, err := parse(s)
	if !clean(g, err) {
		return
	}
	o := opts()
	o.DefaultObjectMaxProperties = 1
	obj, ok := g.Generate(o).(map[string]any)
	Check("object", ok, "no object generated")
	for k := range obj {
		Check("matches", regexp.MustCompile(p).MatchString(k), "a name does not match its pattern")
	}
}
