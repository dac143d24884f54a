package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var big0 = big.NewInt(0)

func bigInt(n int64) *big.Int { return big.NewInt(n) }

func cell(v value) *value {
	c := new(value)
	*c = v
	return c
}

// nat builds an implementation that always applies.
func nat(f func(m *Machine, a []value) value) nativeImpl {
	return func(m *Machine, c *callCtx) (value, bool) { return f(m, c.args), true }
}

// bridge calls a real Go function when all arguments are concrete.
func bridge(fn any) nativeImpl {
	rv := reflect.ValueOf(fn)
	rt := rv.Type()
	return func(m *Machine, c *callCtx) (value, bool) {
		if len(c.args) != rt.NumIn() {
			return nil, false
		}
		in := make([]reflect.Value, len(c.args))
		for i, a := range c.args {
			v, ok := toReflect(a, rt.In(i))
			if !ok {
				return nil, false
			}
			in[i] = v
		}
		var out []reflect.Value
		if rt.IsVariadic() {
			out = rv.CallSlice(in)
		} else {
			out = rv.Call(in)
		}
		res := make([]value, len(out))
		for i, o := range out {
			res[i] = m.fromReflect(o)
		}
		switch len(res) {
		case 0:
			return nil, true
		case 1:
			return res[0], true
		}
		return tuple(res), true
	}
}

func toReflect(v value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s).Convert(t), true
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := v.(int64)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(n).Convert(t), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, ok := v.(uint64)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(n).Convert(t), true
	case reflect.Float64:
		f, ok := v.(float64)
		return reflect.ValueOf(f), ok
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			switch b := v.(type) {
			case *symBytes:
				s, ok := b.s.(string)
				if !ok {
					return reflect.Value{}, false
				}
				return reflect.ValueOf([]byte(s)), true
			case []value:
				out := make([]byte, len(b))
				for i, x := range b {
					u, ok := x.(uint64)
					if !ok {
						return reflect.Value{}, false
					}
					out[i] = byte(u)
				}
				return reflect.ValueOf(out), true
			}
			return reflect.Value{}, false
		}
		s, ok := v.([]value)
		if !ok {
			return reflect.Value{}, false
		}
		out := reflect.MakeSlice(t, len(s), len(s))
		for i, x := range s {
			e, ok := toReflect(x, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out.Index(i).Set(e)
		}
		return out, true
	}
	return reflect.Value{}, false
}

func (m *Machine) fromReflect(v reflect.Value) value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Float64, reflect.Float32:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return []value(nil)
		}
		out := make([]value, v.Len())
		for i := range out {
			out[i] = m.fromReflect(v.Index(i))
		}
		return out
	case reflect.Interface:
		if v.IsNil() {
			return iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return m.mkError(e.Error())
		}
	}
	panic(m.unsupported("fromReflect %s", v.Type()))
}

func allConcrete(args ...value) bool {
	for _, a := range args {
		if isSym(a) {
			return false
		}
	}
	return true
}

func buildNatives() map[string]nativeImpl {
	N := map[string]nativeImpl{}
	br := func(name string, fn any) { N[name] = bridge(fn) }
	n := func(name string, f func(m *Machine, a []value) value) { N[name] = nat(f) }

	// ---- strings
	br("strings.ToLower", strings.ToLower)
	br("strings.ToUpper", strings.ToUpper)
	br("strings.Fields", strings.Fields)
	br("strings.TrimSpace", strings.TrimSpace)
	br("strings.Trim", strings.Trim)
	br("strings.TrimLeft", strings.TrimLeft)
	br("strings.TrimRight", strings.TrimRight)
	br("strings.Repeat", strings.Repeat)
	br("strings.EqualFold", strings.EqualFold)
	br("strings.Count", strings.Count)
	br("strings.LastIndex", strings.LastIndex)
	br("strings.IndexAny", strings.IndexAny)
	br("strings.ContainsAny", strings.ContainsAny)
	br("strings.IndexRune", strings.IndexRune)
	br("strings.Replace", strings.Replace)
	br("strings.Title", strings.Title)
	br("strings.Compare", strings.Compare)
	N["strings.Index"] = symIndex(strings.Index)
	N["strings.Contains"] = func(m *Machine, c *callCtx) (value, bool) {
		if s, ok := c.args[0].(string); ok {
			if t, ok := c.args[1].(string); ok {
				return strings.Contains(s, t), true
			}
		}
		sep, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		return m.strContains(c.args[0], sep), true
	}
	N["strings.IndexByte"] = func(m *Machine, c *callCtx) (value, bool) {
		b, ok := c.args[1].(uint64)
		if !ok {
			return nil, false
		}
		return m.strIndexOf(c.args[0], string([]byte{byte(b)})), true
	}
	N["strings.LastIndexByte"] = func(m *Machine, c *callCtx) (value, bool) {
		if s, ok := c.args[0].(string); ok {
			if b, ok := c.args[1].(uint64); ok {
				return int64(strings.LastIndexByte(s, byte(b))), true
			}
		}
		return nil, false
	}
	N["strings.HasPrefix"] = func(m *Machine, c *callCtx) (value, bool) {
		p, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		if s, ok := c.args[0].(string); ok {
			return strings.HasPrefix(s, p), true
		}
		return m.strHasPrefix(c.args[0], p), true
	}
	N["strings.HasSuffix"] = func(m *Machine, c *callCtx) (value, bool) {
		p, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		if s, ok := c.args[0].(string); ok {
			return strings.HasSuffix(s, p), true
		}
		segs := segsOf(c.args[0])
		last := segs[len(segs)-1]
		if last.k == sLit && len(last.lit) >= len(p) {
			return strings.HasSuffix(last.lit, p), true
		}
		bs := m.bytesOf(c.args[0])
		if len(bs) < len(p) {
			return false, true
		}
		return m.equals(m.fromBytes(bs[len(bs)-len(p):]), p), true
	}
	N["strings.TrimPrefix"] = func(m *Machine, c *callCtx) (value, bool) {
		p, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		if s, ok := c.args[0].(string); ok {
			return strings.TrimPrefix(s, p), true
		}
		if m.truth(m.strHasPrefix(c.args[0], p)) {
			return m.strSlice(c.args[0], int64(len(p)), nil), true
		}
		return c.args[0], true
	}
	br("strings.TrimSuffix", strings.TrimSuffix)
	n("strings.Join", func(m *Machine, a []value) value {
		s, _ := a[0].([]value)
		var parts []value
		for i, x := range s {
			if i > 0 {
				parts = append(parts, a[1])
			}
			parts = append(parts, x)
		}
		if len(parts) == 0 {
			return ""
		}
		return concat(parts...)
	})
	N["strings.Split"] = func(m *Machine, c *callCtx) (value, bool) {
		sep, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		if s, ok := c.args[0].(string); ok {
			var out []value
			for _, x := range strings.Split(s, sep) {
				out = append(out, x)
			}
			return out, true
		}
		return m.strSplit(c.args[0], sep), true
	}
	br("strings.SplitN", strings.SplitN)
	N["strings.ReplaceAll"] = func(m *Machine, c *callCtx) (value, bool) {
		from, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		if s, ok := c.args[0].(string); ok {
			if to, ok := c.args[2].(string); ok {
				return strings.ReplaceAll(s, from, to), true
			}
		}
		if from == "" {
			return nil, false
		}
		parts := m.strSplit(c.args[0], from)
		var out []value
		for i, p := range parts {
			if i > 0 {
				out = append(out, c.args[2])
			}
			out = append(out, p)
		}
		return concat(out...), true
	}
	n("strings.Clone", func(m *Machine, a []value) value { return a[0] })
	br("path.Join", path.Join)
	br("path.Clean", path.Clean)
	br("path.Dir", path.Dir)
	br("path/filepath.Join", filepath.Join)
	br("path/filepath.Clean", filepath.Clean)
	br("path/filepath.Dir", filepath.Dir)
	br("path/filepath.Base", filepath.Base)
	br("path/filepath.IsAbs", filepath.IsAbs)
	br("path/filepath.Rel", filepath.Rel)
	br("path/filepath.Match", filepath.Match)
	// scanning texts with symbolic bytes decides byte by byte
	scan := func(name string, step int, count bool) {
		N["internal/bytealg."+name] = func(m *Machine, c *callCtx) (value, bool) {
			var bs []value
			switch s := c.args[0].(type) {
			case []value:
				bs = s
			case string:
				if b, ok := c.args[1].(uint64); ok {
					switch {
					case count:
						return int64(strings.Count(s, string([]byte{byte(b)}))), true
					case step > 0:
						return int64(strings.IndexByte(s, byte(b))), true
					default:
						return int64(strings.LastIndexByte(s, byte(b))), true
					}
				}
				bs = m.bytesOf(s)
			default:
				bs = m.bytesOf(s)
			}
			hits := int64(0)
			for k := range bs {
				i := k
				if step < 0 {
					i = len(bs) - 1 - k
				}
				if m.truth(m.equals(bs[i], c.args[1])) {
					if !count {
						return int64(i), true
					}
					hits++
				}
			}
			if count {
				return hits, true
			}
			return int64(-1), true
		}
	}
	scan("IndexByteString", 1, false)
	scan("IndexByte", 1, false)
	scan("LastIndexByteString", -1, false)
	scan("LastIndexByte", -1, false)
	scan("CountString", 1, true)
	scan("Count", 1, true)
	// the first place where one text appears within another, deciding byte by byte
	N["internal/bytealg.IndexString"] = func(m *Machine, c *callCtx) (value, bool) {
		if s, ok := c.args[0].(string); ok {
			if t, ok := c.args[1].(string); ok {
				return int64(strings.Index(s, t)), true
			}
		}
		s, t := m.bytesOf(c.args[0]), m.bytesOf(c.args[1])
	next:
		for i := 0; i+len(t) <= len(s); i++ {
			for j := range t {
				if !m.truth(m.equals(s[i+j], t[j])) {
					continue next
				}
			}
			return int64(i), true
		}
		return int64(-1), true
	}
	br("internal/bytealg.Equal", func(a, b []byte) bool { return string(a) == string(b) })
	n("internal/bytealg.MakeNoZero", func(m *Machine, a []value) value {
		s := make([]value, m.concInt(a[0]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	n("internal/stringslite.Clone", func(m *Machine, a []value) value { return a[0] })
	n("internal/abi.NoEscape", func(m *Machine, a []value) value { return a[0] })
	n("internal/abi.Escape", func(m *Machine, a []value) value { return a[0] })
	n("bytes.Equal", func(m *Machine, a []value) value { return m.equals(m.strOfBytes(a[0]), m.strOfBytes(a[1])) })

	// ---- strconv
	br("strconv.Atoi", strconv.Atoi)
	br("strconv.ParseInt", strconv.ParseInt)
	br("strconv.ParseUint", strconv.ParseUint)
	br("strconv.ParseFloat", strconv.ParseFloat)
	br("strconv.ParseBool", strconv.ParseBool)
	br("strconv.Quote", strconv.Quote)
	br("strconv.Unquote", strconv.Unquote)
	br("strconv.FormatFloat", strconv.FormatFloat)
	n("strconv.Itoa", func(m *Machine, a []value) value { return m.decText(a[0]) })
	N["strconv.FormatInt"] = func(m *Machine, c *callCtx) (value, bool) {
		if b, ok := c.args[1].(int64); ok && b == 10 {
			return m.decText(c.args[0]), true
		}
		if allConcrete(c.args...) {
			return strconv.FormatInt(c.args[0].(int64), int(c.args[1].(int64))), true
		}
		return nil, false
	}

	// ---- unicode
	br("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	N["unicode/utf8.RuneCountInString"] = func(m *Machine, c *callCtx) (value, bool) {
		if s, ok := c.args[0].(string); ok {
			return int64(utf8.RuneCountInString(s)), true
		}
		// opaque texts are ASCII
		total := m.tt.int64C(0)
		for _, g := range segsOf(c.args[0]) {
			switch g.k {
			case sLit:
				total = m.tt.iadd(total, m.tt.int64C(int64(utf8.RuneCountInString(g.lit))))
			case sByte:
				if !m.branch(m.tt.ilt(g.t, m.tt.int64C(128))) {
					panic(m.unsupported("non-ascii symbolic byte"))
				}
				total = m.tt.iadd(total, m.tt.int64C(1))
			default:
				total = m.tt.iadd(total, m.term(m.strLen(mkStr([]seg{g}))))
			}
		}
		return m.normNum(total, tInt), true
	}
	br("unicode/utf8.ValidString", utf8.ValidString)
	br("unicode/utf8.RuneLen", utf8.RuneLen)
	br("unicode/utf8.DecodeRuneInString", utf8.DecodeRuneInString)
	br("unicode/utf8.DecodeLastRuneInString", utf8.DecodeLastRuneInString)
	br("unicode.IsLetter", unicode.IsLetter)
	br("unicode.IsDigit", unicode.IsDigit)
	br("unicode.IsSpace", unicode.IsSpace)
	br("unicode.IsUpper", unicode.IsUpper)
	br("unicode.IsLower", unicode.IsLower)
	br("unicode.ToLower", unicode.ToLower)
	br("unicode.ToUpper", unicode.ToUpper)
	br("unicode.SimpleFold", unicode.SimpleFold)
	br("unicode.IsPrint", unicode.IsPrint)
	br("strconv.IsPrint", strconv.IsPrint)

	// ---- math
	br("math.Pow", math.Pow)
	br("math.Log10", math.Log10)
	br("math.Log", math.Log)
	br("math.Exp", math.Exp)
	br("math.Sqrt", math.Sqrt)
	br("math.Inf", math.Inf)
	br("math.NaN", math.NaN)
	br("math.Float64bits", math.Float64bits)
	br("math.Float64frombits", math.Float64frombits)
	N["math.Nextafter"] = func(m *Machine, c *callCtx) (value, bool) {
		x, ok1 := c.args[0].(float64)
		y, ok2 := c.args[1].(float64)
		if ok1 && ok2 {
			return math.Nextafter(x, y), true
		}
		if ok1 || !ok2 || !math.IsInf(y, 0) {
			panic(m.unsupported("math.Nextafter towards a symbolic value"))
		}
		return m.nextafter(c.args[0].(*Term), y > 0), true
	}
	br("math.Hypot", math.Hypot)
	br("math.Signbit", math.Signbit)
	br("math.MaxInt", func() int { return math.MaxInt })
	sf := func(name string, conc func(float64) float64, sym func(m *Machine, t *Term) value) {
		N[name] = func(m *Machine, c *callCtx) (value, bool) {
			if f, ok := c.args[0].(float64); ok {
				return conc(f), true
			}
			t := m.exactly(c.args[0].(*Term))
			if t.isConst {
				f, _ := t.r.Float64()
				return conc(f), true
			}
			if v, ok := m.tabFn(t, conc); ok {
				return v, true
			}
			return sym(m, t), true
		}
	}
	asF := func(m *Machine, t *Term) value { return m.normNum(m.tt.toReal(t), tFloat64) }
	sf("math.Floor", math.Floor, func(m *Machine, t *Term) value { return asF(m, m.floorT(t)) })
	sf("math.Ceil", math.Ceil, func(m *Machine, t *Term) value { return asF(m, m.ceilT(t)) })
	sf("math.Trunc", math.Trunc, func(m *Machine, t *Term) value { return asF(m, m.truncT(t)) })
	sf("math.Round", math.Round, func(m *Machine, t *Term) value { return asF(m, m.roundT(t)) })
	sf("math.Abs", math.Abs, func(m *Machine, t *Term) value {
		tt := m.tt
		if t.rlo >= 0 {
			return t
		}
		if t.rhi <= 0 {
			return m.normNum(tt.rmul(tt.realC(-1), t), tFloat64)
		}
		if t.op == "to_real" {
			x := t.args[0]
			return asF(m, tt.ite(tt.ilt(x, tt.int64C(0)), tt.ineg(x), x))
		}
		r := tt.ite(tt.rle(tt.realC(0), t), t, tt.rmul(tt.realC(-1), t))
		if !r.isConst {
			r.rhi = math.Max(math.Abs(t.rlo), math.Abs(t.rhi))
			r.rlo = 0
		}
		return m.normNum(r, tFloat64)
	})
	N["math.IsInf"] = func(m *Machine, c *callCtx) (value, bool) {
		if f, ok := c.args[0].(float64); ok {
			return math.IsInf(f, int(c.args[1].(int64))), true
		}
		return false, true
	}
	// Handles are made once per value here (netip, which keeps its own for the usual zones)
	N["unique.Make"] = nat(func(m *Machine, a []value) value { return structure{cell(a[0])} })
	N["math.IsNaN"] = func(m *Machine, c *callCtx) (value, bool) {
		if f, ok := c.args[0].(float64); ok {
			return f != f, true
		}
		return false, true
	}
	minmax := func(name string, conc func(a, b float64) float64, isMin bool) {
		N[name] = func(m *Machine, c *callCtx) (value, bool) {
			a, ok1 := c.args[0].(float64)
			b, ok2 := c.args[1].(float64)
			if ok1 && ok2 {
				return conc(a, b), true
			}
			if ok1 && math.IsInf(a, 0) || ok2 && math.IsInf(b, 0) {
				x, y, inf := c.args[0], c.args[1], a
				if ok2 && math.IsInf(b, 0) {
					x, y, inf = c.args[1], c.args[0], b
				}
				if (inf > 0) == isMin {
					return y, true
				}
				return x, true
			}
			tt := m.tt
			x, y := m.term(c.args[0]), m.term(c.args[1])
			if m.branch(tt.rle(x, y)) == isMin {
				return m.normNum(x, tFloat64), true
			}
			return m.normNum(y, tFloat64), true
		}
	}
	minmax("math.Min", math.Min, true)
	minmax("math.Max", math.Max, false)
	N["math.Mod"] = func(m *Machine, c *callCtx) (value, bool) {
		a, ok1 := c.args[0].(float64)
		b, ok2 := c.args[1].(float64)
		if ok1 && ok2 {
			return math.Mod(a, b), true
		}
		if !ok2 {
			b = m.concFloat(c.args[1].(*Term))
		}
		if ok1 {
			return math.Mod(a, b), true
		}
		return m.fmod(c.args[0].(*Term), b), true
	}

	// ---- fmt
	n("fmt.Sprintf", func(m *Machine, a []value) value { return m.sprintf(a[0], sliceOf(a[1])) })
	n("fmt.Errorf", func(m *Machine, a []value) value { return m.errorf(a[0], sliceOf(a[1])) })
	n("fmt.Sprint", func(m *Machine, a []value) value {
		var parts []value
		prevStr := true
		for i, x := range sliceOf(a[0]) {
			it := x.(iface)
			_, isS := it.v.(string)
			if _, ok := it.v.(*SymStr); ok {
				isS = true
			}
			if i > 0 && !isS && !prevStr {
				parts = append(parts, " ")
			}
			prevStr = isS
			parts = append(parts, m.fmtVerb("", 'v', it))
		}
		if len(parts) == 0 {
			return ""
		}
		return concat(parts...)
	})
	sprintln := func(m *Machine, args []value) value {
		var parts []value
		for i, x := range args {
			if i > 0 {
				parts = append(parts, " ")
			}
			parts = append(parts, m.fmtVerb("", 'v', x.(iface)))
		}
		return concat(append(parts, "\n")...)
	}
	n("fmt.Sprintln", func(m *Machine, a []value) value { return sprintln(m, sliceOf(a[0])) })
	n("fmt.Printf", func(m *Machine, a []value) value {
		m.ext().out(m, m.sprintf(a[0], sliceOf(a[1])))
		return tuple{int64(0), iface{}}
	})
	n("fmt.Println", func(m *Machine, a []value) value {
		m.ext().out(m, sprintln(m, sliceOf(a[0])))
		return tuple{int64(0), iface{}}
	})
	n("fmt.Print", func(m *Machine, a []value) value {
		for _, x := range sliceOf(a[0]) {
			m.ext().out(m, m.fmtVerb("", 'v', x.(iface)))
		}
		return tuple{int64(0), iface{}}
	})
	n("fmt.Fprintf", func(m *Machine, a []value) value {
		m.writeTo(a[0], m.sprintf(a[1], sliceOf(a[2])))
		return tuple{int64(0), iface{}}
	})
	n("fmt.Fprintln", func(m *Machine, a []value) value {
		m.writeTo(a[0], sprintln(m, sliceOf(a[1])))
		return tuple{int64(0), iface{}}
	})
	n("fmt.Fprint", func(m *Machine, a []value) value {
		for _, x := range sliceOf(a[1]) {
			m.writeTo(a[0], m.fmtVerb("", 'v', x.(iface)))
		}
		return tuple{int64(0), iface{}}
	})

	// ---- errors
	n("errors.New", func(m *Machine, a []value) value { return m.mkError(a[0]) })
	n("errors.Is", func(m *Machine, a []value) value {
		e, target := a[0].(iface), a[1].(iface)
		for i := 0; i < 50; i++ {
			if e.t == nil {
				return target.t == nil
			}
			if m.truth(m.equals(e, target)) {
				return true
			}
			u := m.methodByName(e.t, "Unwrap")
			if u == nil {
				return false
			}
			r, ok := m.call(nil, u, []value{copyVal(e.v)}).(iface)
			if !ok {
				return false
			}
			e = r
		}
		return false
	})
	N["errors.As"] = func(m *Machine, c *callCtx) (value, bool) {
		e := c.args[0].(iface)
		tgt := c.args[1].(iface)
		pt := tgt.t.Underlying().(*types.Pointer).Elem()
		for i := 0; i < 50 && e.t != nil; i++ {
			if it, ok := pt.Underlying().(*types.Interface); ok {
				if types.Implements(e.t, it) {
					m.store(tgt.v, e)
					return true, true
				}
			} else if types.Identical(e.t, pt) {
				m.store(tgt.v, e.v)
				return true, true
			}
			u := m.methodByName(e.t, "Unwrap")
			if u == nil {
				return false, true
			}
			r, ok := m.call(nil, u, []value{copyVal(e.v)}).(iface)
			if !ok {
				return false, true
			}
			e = r
		}
		return false, true
	}

	// ---- sync
	nop := func(m *Machine, a []value) value { return nil }
	for _, s := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire"} {
		n(s, nop)
	}
	n("(*sync.Once).Do", func(m *Machine, a []value) value {
		p := a[0].(*value)
		k := fmt.Sprintf("once%p", p)
		if m.onceDone(p) {
			return nil
		}
		_ = k
		m.call(nil, a[1], nil)
		return nil
	})
	n("(*sync.Pool).Get", func(m *Machine, a []value) value {
		st := (*(a[0].(*value))).(structure)
		nf := st[len(st)-1]
		if isNilFunc(nf) {
			return iface{}
		}
		return m.call(nil, nf, nil)
	})
	n("(*sync.Pool).Put", nop)

	// ---- encoding/json
	n("encoding/json.Unmarshal", func(m *Machine, a []value) value {
		it := a[1].(iface)
		if it.t == nil {
			return m.mkError("json: Unmarshal(nil)")
		}
		return m.jsonUnmarshal(m.strOfBytes(a[0]), it)
	})
	n("encoding/json.Marshal", func(m *Machine, a []value) value {
		t, err := m.jsonMarshal(a[0].(iface))
		if err != nil {
			return tuple{[]value(nil), err}
		}
		return tuple{m.toByteSlice(t), iface{}}
	})
	n("encoding/json.MarshalIndent", func(m *Machine, a []value) value {
		t, err := m.jsonMarshal(a[0].(iface))
		if err != nil {
			return tuple{[]value(nil), err}
		}
		if _, ok := t.(string); !ok {
			// indentation is irrelevant to the content; kept compact
			return tuple{m.toByteSlice(t), iface{}}
		}
		return tuple{m.toByteSlice(m.jsonIndent(t, a[1].(string), a[2].(string))), iface{}}
	})
	n("encoding/json.Valid", func(m *Machine, a []value) value {
		_, v := m.jsonParse(m.strOfBytes(a[0]))
		return v != nil
	})

	// ---- regexp
	re := func(v value) *regexp.Regexp {
		p := v.(*value)
		if p == nil {
			panic(goPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		o, ok := (*p).(*nativeObj)
		if !ok || o == nil {
			panic(goPanic("nil regexp"))
		}
		return o.v.(*regexp.Regexp)
	}
	mkre := func(m *Machine, s value) (value, error) {
		cs, ok := s.(string)
		if !ok {
			panic(m.unsupported("symbolic regular expression"))
		}
		r, err := regexp.Compile(cs)
		if err != nil {
			return nil, err
		}
		return cell(&nativeObj{"regexp", r}), nil
	}
	n("regexp.Compile", func(m *Machine, a []value) value {
		r, err := mkre(m, a[0])
		if err != nil {
			return tuple{(*value)(nil), m.mkError(err.Error())}
		}
		return tuple{r, iface{}}
	})
	n("regexp.MustCompile", func(m *Machine, a []value) value {
		r, err := mkre(m, a[0])
		if err != nil {
			panic(goPanic("regexp: Compile: " + err.Error()))
		}
		return r
	})
	match := func(m *Machine, r *regexp.Regexp, s value) value {
		if cs, ok := s.(string); ok {
			return r.MatchString(cs)
		}
		return m.regexMatch(r.String(), s)
	}
	n("(*regexp.Regexp).MatchString", func(m *Machine, a []value) value { return match(m, re(a[0]), a[1]) })
	n("(*regexp.Regexp).Match", func(m *Machine, a []value) value { return match(m, re(a[0]), m.strOfBytes(a[1])) })
	n("regexp.MatchString", func(m *Machine, a []value) value {
		r, err := mkre(m, a[0])
		if err != nil {
			return tuple{false, m.mkError(err.Error())}
		}
		return tuple{match(m, re(r), a[1]), iface{}}
	})
	n("(*regexp.Regexp).String", func(m *Machine, a []value) value { return re(a[0]).String() })
	n("regexp.QuoteMeta", func(m *Machine, a []value) value {
		s, ok := a[0].(string)
		if !ok {
			panic(m.unsupported("QuoteMeta of symbolic text"))
		}
		return regexp.QuoteMeta(s)
	})
	n("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, a []value) value {
		s, ok := a[1].(string)
		if !ok {
			s, ok = m.flatString(a[1])
			if !ok {
				panic(m.unsupported("submatch on symbolic text"))
			}
		}
		return m.fromReflect(reflect.ValueOf(re(a[0]).FindStringSubmatch(s)))
	})
	n("(*regexp.Regexp).FindString", func(m *Machine, a []value) value {
		s, ok := m.flatString(a[1])
		if !ok {
			panic(m.unsupported("find on symbolic text"))
		}
		return re(a[0]).FindString(s)
	})
	n("(*regexp.Regexp).SubexpNames", func(m *Machine, a []value) value {
		return m.fromReflect(reflect.ValueOf(re(a[0]).SubexpNames()))
	})
	n("(*regexp.Regexp).ReplaceAllString", func(m *Machine, a []value) value {
		r := re(a[0])
		if s, ok := a[1].(string); ok {
			return r.ReplaceAllString(s, a[2].(string))
		}
		// symbolic parts are replaced piecewise: exact for single-character classes
		var out []value
		for _, g := range segsOf(a[1]) {
			if g.k == sLit {
				out = append(out, r.ReplaceAllString(g.lit, a[2].(string)))
			} else if g.k == sDec && !r.MatchString("0123456789-") {
				out = append(out, mkStr([]seg{g}))
			} else {
				for _, b := range m.bytesOf(mkStr([]seg{g})) {
					c := m.concInt(b)
					out = append(out, r.ReplaceAllString(string([]byte{byte(c)}), a[2].(string)))
				}
			}
		}
		return concat(out...)
	})

	// the remaining methods are called with known text only
	for _, name := range []string{"FindAllString", "FindStringIndex", "FindAllStringSubmatch", "FindStringSubmatchIndex", "FindAllStringIndex",
		"FindAllStringSubmatchIndex", "Split", "NumSubexp", "SubexpIndex", "ReplaceAllLiteralString", "LiteralPrefix"} {
		n("(*regexp.Regexp)."+name, func(m *Machine, a []value) value {
			f := reflect.ValueOf(re(a[0])).MethodByName(name)
			var in []reflect.Value
			for _, x := range a[1:] {
				if i, ok := x.(int64); ok {
					in = append(in, reflect.ValueOf(int(i)))
				} else if s, ok := m.flatString(x); ok {
					in = append(in, reflect.ValueOf(s))
				} else {
					panic(m.unsupported("regexp method on symbolic text"))
				}
			}
			out := f.Call(in)
			if len(out) == 1 {
				return m.fromReflect(out[0])
			}
			t := tuple{}
			for _, o := range out {
				t = append(t, m.fromReflect(o))
			}
			return t
		})
	}

	// ---- sort / slices helpers that rely on reflection
	n("sort.Slice", func(m *Machine, a []value) value {
		s := a[0].(iface).v.([]value)
		// insertion sort through the interpreted less function
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.truth(m.call(nil, a[1], []value{int64(j), int64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.setCell(&s[j], y)
				m.setCell(&s[j-1], x)
			}
		}
		return nil
	})
	N["sort.SliceStable"] = N["sort.Slice"]
	n("sort.Strings", func(m *Machine, a []value) value {
		s := a[0].([]value)
		cp := append([]value{}, s...)
		sort.SliceStable(cp, func(i, j int) bool { return m.truth(m.strLess(cp[i], cp[j])) })
		for i := range s {
			m.setCell(&s[i], cp[i])
		}
		return nil
	})

	// ---- strings.Builder / bytes.Buffer: content kept as one symbolic text
	bufGet := func(m *Machine, p value, fld int) value {
		c := p.(*value)
		if c == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		st := (*c).(structure)
		switch b := st[fld].(type) {
		case *symBytes:
			return b.s
		case []value:
			return m.fromBytes(b)
		}
		return ""
	}
	bufAdd := func(fld int, conv func(m *Machine, v value) value) func(m *Machine, a []value) value {
		return func(m *Machine, a []value) value {
			s := conv(m, a[1])
			cur := bufGet(m, a[0], fld)
			st := (*(a[0].(*value))).(structure)
			m.setCell(&st[fld], &symBytes{concat(cur, s)})
			return s
		}
	}
	ident := func(m *Machine, v value) value { return v }
	for _, b := range []struct {
		t   string
		fld int
	}{{"strings.Builder", 1}, {"bytes.Buffer", 0}} {
		fld := b.fld
		add := func(name string, conv func(m *Machine, v value) value, ret func(m *Machine, s value) value) {
			f := bufAdd(fld, conv)
			n("(*"+b.t+")."+name, func(m *Machine, a []value) value { return ret(m, f(m, a)) })
		}
		lenErr := func(m *Machine, s value) value { return tuple{m.strLen(s), iface{}} }
		add("WriteString", ident, lenErr)
		add("Write", func(m *Machine, v value) value { return m.strOfBytes(v) }, lenErr)
		add("WriteByte", func(m *Machine, v value) value { return m.fromBytes([]value{v}) }, func(m *Machine, s value) value { return iface{} })
		add("WriteRune", func(m *Machine, v value) value { return m.runeToString(v) }, lenErr)
		n("(*"+b.t+").String", func(m *Machine, a []value) value {
			if p, ok := a[0].(*value); ok && p == nil {
				return "<nil>"
			}
			return bufGet(m, a[0], fld)
		})
		n("(*"+b.t+").Len", func(m *Machine, a []value) value { return m.strLen(bufGet(m, a[0], fld)) })
		n("(*"+b.t+").Grow", nop)
		n("(*"+b.t+").Reset", func(m *Machine, a []value) value {
			st := (*(a[0].(*value))).(structure)
			m.setCell(&st[fld], []value(nil))
			return nil
		})
	}
	n("(*bytes.Buffer).Bytes", func(m *Machine, a []value) value { return m.toByteSlice(bufGet(m, a[0], 0)) })
	n("io.WriteString", func(m *Machine, a []value) value {
		m.writeTo(a[0], a[1])
		return tuple{m.strLen(a[1]), iface{}}
	})

	addRand(N)
	addThirdParty(N)
	N["reflect.DeepEqual"] = func(m *Machine, c *callCtx) (value, bool) {
		return m.deepEqual(c.args[0], c.args[1], 0), true
	}
	addExternal(N)
	addHarness(N)
	return N
}

func sliceOf(v value) []value {
	s, _ := v.([]value)
	return s
}

func (m *Machine) onceDone(p *value) bool {
	st, ok := (*p).(structure)
	if !ok {
		return false
	}
	// mark by replacing the first field cell with a sentinel
	if _, ok := st[0].(*nativeObj); ok {
		return true
	}
	m.setCell(&st[0], &nativeObj{kind: "once"})
	return false
}

// writeTo sends text to an io.Writer value.
func (m *Machine) writeTo(w value, s value) {
	it := w.(iface)
	if it.t == nil {
		panic(m.rtError("nil writer"))
	}
	name := types.TypeString(it.t, nil)
	switch name {
	case "*os.File":
		m.ext().fileWrite(m, it.v, s)
		return
	}
	fn := m.methodByName(it.t, "Write")
	if fn == nil {
		panic(m.unsupported("writer %s", name))
	}
	m.call(nil, fn, []value{it.v, m.toByteSlice(s)})
}

// fmod models math.Mod(a, b) for a constant b.
func (m *Machine) fmod(a *Term, b float64) value {
	if b == 0 {
		return math.NaN()
	}
	b = math.Abs(b)
	tt := m.tt
	if a.grid != noGrid {
		g := maxI(a.grid, gridOf(b))
		if in := m.scaled(a); in != nil && g < 60 && g > -60 {
			bi := new(big.Rat).Mul(new(big.Rat).SetFloat64(b), pow2(g)).Num()
			ai := tt.imul(tt.intC(new(big.Int).Lsh(big.NewInt(1), uint(g-a.grid))), in)
			var r *Term
			if ai.lo != nil && ai.lo.Sign() >= 0 {
				r = tt.imodEuc(ai, tt.intC(bi))
			} else {
				neg := tt.ilt(ai, tt.int64C(0))
				r = tt.ite(neg, tt.ineg(tt.imodEuc(tt.ineg(ai), tt.intC(bi))), tt.imodEuc(ai, tt.intC(bi)))
			}
			return m.normNum(tt.rmul(tt.ratC(pow2(-g)), tt.toReal(r)), tFloat64)
		}
	}
	if m.smallDomain(a, 64) {
		return math.Mod(m.concFloat(a), b)
	}
	panic(m.unsupported("math.Mod of wide symbolic float"))
}

// ---------------------------------------------------------------- symbolic string helpers

func symIndex(conc func(a, b string) int) nativeImpl {
	return func(m *Machine, c *callCtx) (value, bool) {
		sep, ok := c.args[1].(string)
		if !ok {
			return nil, false
		}
		if s, ok := c.args[0].(string); ok {
			return int64(conc(s, sep)), true
		}
		return m.strIndexOf(c.args[0], sep), true
	}
}

// strIndexOf forks over the position of the first match.
func (m *Machine) strIndexOf(s value, sep string) value {
	if cs, ok := s.(string); ok {
		return int64(strings.Index(cs, sep))
	}
	bs := m.bytesOf(s)
	for i := 0; i+len(sep) <= len(bs); i++ {
		if m.truth(m.equals(m.fromBytes(bs[i:i+len(sep)]), sep)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func onlyNumCh(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isNumCh(s[i]) {
			return false
		}
	}
	return true
}

func anyNumCh(s string) bool {
	for i := 0; i < len(s); i++ {
		if isNumCh(s[i]) {
			return true
		}
	}
	return false
}

func (m *Machine) strContains(s value, sep string) value {
	if cs, ok := s.(string); ok {
		return strings.Contains(cs, sep)
	}
	if sep == "" {
		return true
	}
	segs := segsOf(s)
	plain := true
	for _, g := range segs {
		if g.k == sLit && strings.Contains(g.lit, sep) {
			return true
		}
		if g.k == sOpq || (g.k == sDec || g.k == sFlt) && anyNumCh(sep) {
			plain = false
		}
		if g.k == sDec || g.k == sFlt {
			continue
		}
	}
	hasHole := false
	for _, g := range segs {
		if g.k == sDec || g.k == sFlt {
			hasHole = true
		}
	}
	if plain && hasHole {
		// no match can touch a number: test the pieces between them
		var acc []*Term
		var cur []seg
		flush := func() bool {
			if len(cur) == 0 {
				return false
			}
			v := m.strContains(mkStr(cur), sep)
			cur = nil
			if b, ok := v.(bool); ok {
				return b
			}
			acc = append(acc, v.(*Term))
			return false
		}
		for _, g := range segs {
			if g.k == sDec || g.k == sFlt {
				if flush() {
					return true
				}
				continue
			}
			cur = append(cur, g)
		}
		if flush() {
			return true
		}
		if len(acc) == 0 {
			return false
		}
		return m.norm(m.tt.or(acc...))
	}
	for _, g := range segs {
		if g.k == sOpq {
			t := m.freshVar("contains", SBool)
			m.uncertain = true
			return t
		}
	}
	bs := m.bytesOf(s)
	var acc []*Term
	for i := 0; i+len(sep) <= len(bs); i++ {
		switch e := m.equals(m.fromBytes(bs[i:i+len(sep)]), sep).(type) {
		case bool:
			if e {
				return true
			}
		case *Term:
			acc = append(acc, e)
		}
	}
	if len(acc) == 0 {
		return false
	}
	return m.norm(m.tt.or(acc...))
}

func (m *Machine) strHasPrefix(s value, p string) value {
	if p == "" {
		return true
	}
	segs := segsOf(s)
	if segs[0].k == sLit {
		n := len(segs[0].lit)
		if n > len(p) {
			n = len(p)
		}
		if segs[0].lit[:n] != p[:n] {
			return false
		}
		if n == len(p) {
			return true
		}
		return m.strHasPrefix(mkStr(segs[1:]), p[n:])
	}
	if cs, ok := s.(string); ok {
		return strings.HasPrefix(cs, p)
	}
	switch segs[0].k {
	case sDec, sFlt:
		if !isNumCh(p[0]) {
			return false
		}
	case sOpq:
		t := m.freshVar("hasprefix", SBool)
		m.uncertain = true
		return t
	}
	bs := m.bytesOf(s)
	if len(bs) < len(p) {
		return false
	}
	return m.equals(m.fromBytes(bs[:len(p)]), p)
}

func (m *Machine) strSplit(s value, sep string) []value {
	if cs, ok := s.(string); ok {
		var out []value
		for _, x := range strings.Split(cs, sep) {
			out = append(out, x)
		}
		return out
	}
	segs := segsOf(s)
	simple := sep != ""
	for _, g := range segs {
		if g.k == sByte || (g.k == sDec || g.k == sFlt) && anyNumCh(sep) {
			simple = false
		}
		if g.k == sOpq {
			simple = false
		}
	}
	if !simple {
		bs := m.bytesOf(s)
		var out []value
		st := 0
		for i := 0; i+len(sep) <= len(bs); {
			if m.truth(m.equals(m.fromBytes(bs[i:i+len(sep)]), sep)) {
				out = append(out, m.fromBytes(bs[st:i]))
				i += len(sep)
				st = i
				if sep == "" {
					break
				}
			} else {
				i++
			}
		}
		return append(out, m.fromBytes(bs[st:]))
	}
	var out []value
	var cur []value
	cur = append(cur, "")
	for _, g := range segs {
		if g.k != sLit {
			cur = append(cur, mkStr([]seg{g}))
			continue
		}
		ps := strings.Split(g.lit, sep)
		for i, p := range ps {
			if i > 0 {
				out = append(out, concat(cur...))
				cur = []value{""}
			}
			cur = append(cur, p)
		}
	}
	return append(out, concat(cur...))
}

// flatString makes a text concrete by enumerating its small symbolic parts.
func (m *Machine) flatString(s value) (string, bool) {
	if cs, ok := s.(string); ok {
		return cs, true
	}
	bs := m.bytesOf(s)
	out := make([]byte, len(bs))
	for i, b := range bs {
		switch b := b.(type) {
		case uint64:
			out[i] = byte(b)
		case *Term:
			out[i] = byte(m.concInt(b))
		}
	}
	return string(out), true
}

var _ = os.Args
var _ *ssa.Function
