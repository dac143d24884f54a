package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sprintf models fmt.Sprintf over engine values.
func (m *Machine) sprintf(format value, args []value) value {
	var parts []value
	argi := 0
	nextArg := func() (iface, bool) {
		if argi < len(args) {
			a, _ := args[argi].(iface)
			argi++
			return a, true
		}
		return iface{}, false
	}
	for _, g := range segsOf(format) {
		if g.k != sLit {
			parts = append(parts, mkStr([]seg{g}))
			continue
		}
		f := g.lit
		for i := 0; i < len(f); {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				parts = append(parts, f[i:])
				break
			}
			parts = append(parts, f[i:i+j])
			i += j + 1
			st := i
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				parts = append(parts, "%!(NOVERB)")
				break
			}
			flags := f[st:i]
			verb := f[i]
			i++
			if verb == '%' {
				parts = append(parts, "%")
				continue
			}
			a, ok := nextArg()
			if !ok {
				parts = append(parts, "%!"+string(verb)+"(MISSING)")
				continue
			}
			parts = append(parts, m.fmtVerb(flags, verb, a))
		}
	}
	if argi < len(args) {
		parts = append(parts, "%!(EXTRA)")
	}
	if len(parts) == 0 {
		return ""
	}
	return concat(parts...)
}

func (m *Machine) fmtVerb(flags string, verb byte, a iface) value {
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	switch verb {
	case 'T':
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	case 'p':
		return "0xc000000000"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if s, ok := m.stringer(a); ok {
			if verb == 'q' {
				return concat("\"", s, "\"")
			}
			return m.padded(flags, s)
		}
	}
	return m.fmtVal(flags, verb, a.v, a.t, 0)
}

func (m *Machine) padded(flags string, s value) value {
	if flags == "" || flags == "+" || flags == "#" {
		return s
	}
	if cs, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+"s", cs)
	}
	return s
}

// stringer calls Error() or String() when the dynamic type has them.
func (m *Machine) stringer(a iface) (value, bool) {
	for _, n := range []string{"Error", "String"} {
		fn := m.methodByName(a.t, n)
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), tString) {
			continue
		}
		if p, ok := a.v.(*value); ok && p == nil {
			return "<nil>", true
		}
		return m.call(nil, fn, []value{copyVal(a.v)}), true
	}
	return nil, false
}

func (m *Machine) fmtVal(flags string, verb byte, v value, t types.Type, depth int) value {
	switch x := v.(type) {
	case bool, int64, uint64, float64, string:
		if n, ok := v.(int64); ok {
			if b := basicOf(t); b != nil && b.Kind() == types.Int32 && (verb == 'c' || verb == 'q' || verb == 'U') {
				return fmt.Sprintf("%"+flags+string(verb), rune(n))
			}
		}
		if verb == 'w' {
			verb = 'v'
		}
		return fmt.Sprintf("%"+flags+string(verb), x)
	case *Term:
		switch x.sort {
		case SBool:
			if m.branch(x) {
				return "true"
			}
			return "false"
		case SInt:
			if verb == 'd' || verb == 'v' {
				if flags == "" {
					return m.decText(x)
				}
			}
			if m.smallDomain(x, 64) {
				return fmt.Sprintf("%"+flags+string(verb), m.concretize(x).Num().Int64())
			}
			return m.opaqueText("fmt%" + flags + string(verb))
		case SReal:
			if verb == 'v' || verb == 'g' {
				return m.fltText(x)
			}
			return m.opaqueText("fmt%" + flags + string(verb))
		}
	case *SymStr:
		if verb == 'q' {
			return concat("\"", x, "\"")
		}
		return x
	case iface:
		if x.t == nil {
			return "<nil>"
		}
		if s, ok := m.stringer(x); ok {
			return s
		}
		return m.fmtVal(flags, verb, x.v, x.t, depth)
	case *symBytes:
		return x.s
	case []value:
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			break
		}
		if b := basicOf(st.Elem()); b != nil && b.Kind() == types.Uint8 && verb == 's' {
			return m.fromBytes(x)
		}
		return m.fmtSeq(flags, verb, x, st.Elem(), depth)
	case array:
		return m.fmtSeq(flags, verb, x, t.Underlying().(*types.Array).Elem(), depth)
	case *mapObj:
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			break
		}
		parts := []value{"map["}
		for i, e := range x.live() {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, m.fmtElem(flags, verb, e.key, mt.Key(), depth+1), ":", m.fmtElem(flags, verb, e.val, mt.Elem(), depth+1))
		}
		return concat(append(parts, "]")...)
	case structure:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		parts := []value{"{"}
		for i := range x {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, m.fmtElem(flags, verb, x[i], st.Field(i).Type(), depth+1))
		}
		return concat(append(parts, "}")...)
	case *value:
		if x == nil {
			return "<nil>"
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && depth == 0 {
			switch (*x).(type) {
			case structure, []value, *mapObj, array:
				return concat("&", m.fmtVal(flags, verb, *x, pt.Elem(), depth+1))
			}
		}
		return "0xc000000000"
	case *ssa.Function, *closure, *nativeObj, *nativeFn:
		return "0xc000000000"
	case nil:
		return "<nil>"
	}
	return m.opaqueText(fmt.Sprintf("fmt(%T)", v))
}

func (m *Machine) fmtElem(flags string, verb byte, v value, t types.Type, depth int) value {
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if depth < 4 {
			// exported fields with String/Error methods are printed through them
			if n, ok := t.(*types.Named); ok && (verb == 'v' || verb == 's') {
				if n.Obj().Exported() {
					if s, ok := m.stringer(iface{t, v}); ok {
						return s
					}
				}
			}
		}
	}
	return m.fmtVal(flags, verb, v, t, depth)
}

func (m *Machine) fmtSeq(flags string, verb byte, x []value, et types.Type, depth int) value {
	parts := []value{"["}
	for i := range x {
		if i > 0 {
			parts = append(parts, " ")
		}
		parts = append(parts, m.fmtElem(flags, verb, x[i], et, depth+1))
	}
	return concat(append(parts, "]")...)
}

// opaqueText is text whose content is not modelled.
func (m *Machine) opaqueText(name string) value {
	ln := m.freshInt("oplen", big0, bigInt(400))
	return mkStr([]seg{{k: sOpq, o: m.newOpaque(name, ln)}})
}

func (m *Machine) errorf(format value, args []value) value {
	text := m.sprintf(format, args)
	// %w keeps the wrapped error reachable
	fs := ""
	for _, g := range segsOf(format) {
		if g.k == sLit {
			fs += g.lit
		}
	}
	if strings.Contains(fs, "%w") {
		n := 0
		for i := 0; i+1 < len(fs); i++ {
			if fs[i] != '%' {
				continue
			}
			i++
			for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
				i++
			}
			if i >= len(fs) {
				break
			}
			if fs[i] == '%' {
				continue
			}
			if fs[i] == 'w' && n < len(args) {
				if p := m.P.pkgs["fmt"]; p != nil {
					if o := p.Pkg.Scope().Lookup("wrapError"); o != nil {
						c := new(value)
						*c = structure{text, args[n]}
						return iface{types.NewPointer(o.Type()), c}
					}
				}
			}
			n++
		}
	}
	return m.mkError(text)
}

var _ = strconv.Itoa
