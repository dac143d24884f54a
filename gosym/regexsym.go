package main

import (
	"regexp/syntax"
)

// regexMatch builds a formula for "the expression matches somewhere in s" by
// running the compiled program over the (symbolic) bytes of s.
func (m *Machine) regexMatch(pattern string, s value) value {
	tt := m.tt
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		panic(m.unsupported("regexp %q", pattern))
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(m.unsupported("regexp %q", pattern))
	}
	// opaque parts cannot be inspected
	for _, g := range segsOf(s) {
		if g.k == sOpq {
			t := m.freshVar("rematch", SBool)
			m.uncertain = true
			return t
		}
	}
	bs := m.bytesOf(s)
	// the program runs over runes
	var rs []value
	for len(bs) > 0 {
		r, w := m.decodeRune(bs)
		rs = append(rs, r)
		bs = bs[w:]
	}
	bs = rs
	n := len(bs)
	F, T := tt.boolC(false), tt.boolC(true)
	byteT := func(i int) *Term { return m.term(bs[i]) }
	isWord := func(i int) *Term {
		if i < 0 || i >= n {
			return F
		}
		b := byteT(i)
		in := func(lo, hi byte) *Term {
			return tt.and(tt.ile(tt.int64C(int64(lo)), b), tt.ile(b, tt.int64C(int64(hi))))
		}
		return tt.or(in('0', '9'), in('A', 'Z'), in('a', 'z'), tt.eq(b, tt.int64C('_')))
	}
	empty := func(op syntax.EmptyOp, i int) *Term {
		c := T
		if op&syntax.EmptyBeginText != 0 {
			c = tt.and(c, tt.boolC(i == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			c = tt.and(c, tt.boolC(i == n))
		}
		if op&syntax.EmptyBeginLine != 0 && i > 0 {
			c = tt.and(c, tt.eq(byteT(i-1), tt.int64C('\n')))
		}
		if op&syntax.EmptyEndLine != 0 && i < n {
			c = tt.and(c, tt.eq(byteT(i), tt.int64C('\n')))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			a, b := isWord(i-1), isWord(i)
			x := tt.or(tt.and(a, tt.not(b)), tt.and(tt.not(a), b))
			if op&syntax.EmptyWordBoundary != 0 {
				c = tt.and(c, x)
			} else {
				c = tt.and(c, tt.not(x))
			}
		}
		return c
	}
	runeCond := func(in *syntax.Inst, i int) *Term {
		b := byteT(i)
		switch in.Op {
		case syntax.InstRuneAny:
			return T
		case syntax.InstRuneAnyNotNL:
			return tt.not(tt.eq(b, tt.int64C('\n')))
		}
		if in.Op == syntax.InstRune1 || len(in.Rune) == 1 {
			r := in.Rune[0]
			c := tt.eq(b, tt.int64C(int64(r)))
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for x := int64(0); x < 0x2200; x++ {
					if x != int64(r) && in.MatchRune(rune(x)) {
						c = tt.or(c, tt.eq(b, tt.int64C(x)))
					}
				}
			}
			return c
		}
		c := F
		for k := 0; k+1 < len(in.Rune); k += 2 {
			lo, hi := in.Rune[k], in.Rune[k+1]
			c = tt.or(c, tt.and(tt.ile(tt.int64C(int64(lo)), b), tt.ile(b, tt.int64C(int64(hi)))))
		}
		return c
	}
	// active[pc] is the condition under which thread pc is alive at position i
	active := map[uint32]*Term{}
	matched := F
	var add func(set map[uint32]*Term, pc uint32, c *Term, i int, depth int)
	add = func(set map[uint32]*Term, pc uint32, c *Term, i int, depth int) {
		if c.isConst && !c.b || depth > 200 {
			return
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return
		case syntax.InstAlt, syntax.InstAltMatch, syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth, syntax.InstMatch:
			old := set[pc]
			if old != nil {
				nc := tt.or(old, c)
				if nc == old || old.isConst && old.b {
					return
				}
				set[pc] = nc
			} else {
				set[pc] = c
			}
		default:
			if old := set[pc]; old != nil {
				set[pc] = tt.or(old, c)
			} else {
				set[pc] = c
			}
			return
		}
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, c, i, depth+1)
			add(set, in.Arg, c, i, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, c, i, depth+1)
		case syntax.InstEmptyWidth:
			add(set, in.Out, tt.and(c, empty(syntax.EmptyOp(in.Arg), i)), i, depth+1)
		case syntax.InstMatch:
			matched = tt.or(matched, c)
		}
	}
	for i := 0; i <= n; i++ {
		add(active, uint32(prog.Start), T, i, 0)
		if i == n {
			break
		}
		next := map[uint32]*Term{}
		// deterministic order
		for pc := 0; pc < len(prog.Inst); pc++ {
			c := active[uint32(pc)]
			if c == nil {
				continue
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				add(next, in.Out, tt.and(c, runeCond(in, i)), i+1, 0)
			}
		}
		active = next
	}
	return m.norm(matched)
}
