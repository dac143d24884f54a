package main

import (
	"fmt"
	"go/types"
	"math/big"
	"net/url"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func strSliceT() types.Type { return types.NewSlice(types.Typ[types.String]) }

func addThirdParty(N map[string]nativeImpl) {
	n := func(name string, f func(m *Machine, a []value) value) { N[name] = nat(f) }
	const fk = "github.com/thoas/go-funk."

	contains := func(m *Machine, s []value, e value, unwrap bool) value {
		var acc []*Term
		for _, x := range s {
			if it, ok := x.(iface); ok && unwrap {
				x = it
			}
			switch r := m.equals(x, e).(type) {
			case bool:
				if r {
					return true
				}
			case *Term:
				acc = append(acc, r)
			}
		}
		if len(acc) == 0 {
			return false
		}
		return m.norm(m.tt.or(acc...))
	}
	n(fk+"ContainsString", func(m *Machine, a []value) value { return contains(m, sliceOf(a[0]), a[1], false) })
	n(fk+"ContainsFloat64", func(m *Machine, a []value) value { return contains(m, sliceOf(a[0]), a[1], false) })
	n(fk+"ContainsInt", func(m *Machine, a []value) value { return contains(m, sliceOf(a[0]), a[1], false) })
	n(fk+"Contains", func(m *Machine, a []value) value {
		it := a[0].(iface)
		e := a[1].(iface)
		switch t := it.t.Underlying().(type) {
		case *types.Basic:
			return m.strContains(it.v, e.v.(string))
		case *types.Slice:
			if _, isI := t.Elem().Underlying().(*types.Interface); isI {
				return contains(m, sliceOf(it.v), e, true)
			}
			if !types.Identical(t.Elem(), e.t) {
				return false
			}
			return contains(m, sliceOf(it.v), e.v, false)
		case *types.Map:
			mo, _ := it.v.(*mapObj)
			return m.mapFind(mo, e.v) != nil
		}
		panic(m.unsupported("funk.Contains on %s", it.t))
	})
	n(fk+"UniqString", func(m *Machine, a []value) value {
		var out []value = []value{}
		for _, x := range sliceOf(a[0]) {
			if !m.truth(contains(m, out, x, false)) {
				out = append(out, x)
			}
		}
		return out
	})
	n(fk+"DifferenceString", func(m *Machine, a []value) value {
		diff := func(x, y []value) []value {
			out := []value{}
			for _, e := range x {
				if !m.truth(contains(m, y, e, false)) {
					out = append(out, e)
				}
			}
			return out
		}
		x, y := sliceOf(a[0]), sliceOf(a[1])
		return tuple{diff(x, y), diff(y, x)}
	})
	n(fk+"Keys", func(m *Machine, a []value) value {
		it := a[0].(iface)
		mt, ok := it.t.Underlying().(*types.Map)
		if !ok {
			panic(m.unsupported("funk.Keys on %s", it.t))
		}
		mo, _ := it.v.(*mapObj)
		out := []value{}
		for _, e := range m.orderEntries(mo.live()) {
			out = append(out, copyVal(e.key))
		}
		return iface{t: types.NewSlice(mt.Key()), v: out}
	})
	n(fk+"Values", func(m *Machine, a []value) value {
		it := a[0].(iface)
		mt, ok := it.t.Underlying().(*types.Map)
		if !ok {
			panic(m.unsupported("funk.Values on %s", it.t))
		}
		mo, _ := it.v.(*mapObj)
		out := []value{}
		for _, e := range m.orderEntries(mo.live()) {
			out = append(out, copyVal(e.val))
		}
		return iface{t: types.NewSlice(mt.Elem()), v: out}
	})
	n(fk+"Filter", func(m *Machine, a []value) value {
		it := a[0].(iface)
		fn := a[1].(iface)
		out := []value{}
		for _, x := range sliceOf(it.v) {
			if m.truth(m.call(nil, fn.v, []value{copyVal(x)})) {
				out = append(out, copyVal(x))
			}
		}
		return iface{t: types.NewSlice(it.t.Underlying().(*types.Slice).Elem()), v: out}
	})
	n(fk+"Map", func(m *Machine, a []value) value {
		it := a[0].(iface)
		fn := a[1].(iface)
		sig := fn.t.Underlying().(*types.Signature)
		out := []value{}
		switch it.t.Underlying().(type) {
		case *types.Slice:
			for _, x := range sliceOf(it.v) {
				arg := copyVal(x)
				pt := sig.Params().At(0).Type()
				et := it.t.Underlying().(*types.Slice).Elem()
				if types.IsInterface(pt) && !types.IsInterface(et) {
					arg = iface{t: et, v: arg}
				}
				out = append(out, m.call(nil, fn.v, []value{arg}))
			}
		default:
			panic(m.unsupported("funk.Map on %s", it.t))
		}
		return iface{t: types.NewSlice(sig.Results().At(0).Type()), v: out}
	})
	n(fk+"Shuffle", func(m *Machine, a []value) value {
		it := a[0].(iface)
		return iface{t: it.t, v: m.permute(sliceOf(it.v))}
	})

	// ---- faker: text whose content is irrelevant to the callers
	opq := func(name string, lo, hi int64, info string) func(m *Machine, a []value) value {
		return func(m *Machine, a []value) value {
			ln := m.freshInt("len_"+name, bigInt(lo), bigInt(hi))
			o := m.newOpaque(name, ln)
			o.info = info
			return mkStr([]seg{{k: sOpq, o: o}})
		}
	}
	const fa = "github.com/go-faker/faker/v4."
	n(fa+"Sentence", opq("sentence", 18, 100, "ascii"))
	n(fa+"Email", opq("email", 8, 60, "email"))
	n(fa+"DomainName", opq("domain", 6, 40, "hostname"))
	n(fa+"IPv4", opq("ipv4", 7, 15, "ipv4"))
	n(fa+"IPv6", opq("ipv6", 3, 39, "ipv6"))
	n(fa+"UUIDHyphenated", opq("uuid", 36, 36, "uuid"))
	n(fa+"URL", opq("url", 12, 80, "uri"))
	n(fa+"UnixTime", func(m *Machine, a []value) value {
		// the library returns a moment between the epoch and now
		return m.freshInt("unixtime", big0, bigInt(1<<31))
	})

	// ---- time
	n("time.isLeap", func(m *Machine, a []value) value {
		if y, ok := a[0].(int64); ok {
			return y%4 == 0 && (y%100 != 0 || y%400 == 0)
		}
		tt, y := m.tt, m.term(a[0])
		by := func(k int64) *Term { return tt.eq(tt.imodEuc(y, tt.int64C(k)), tt.int64C(0)) }
		return m.norm(tt.or(tt.and(by(4), tt.not(by(100))), by(400)))
	})
	n("time.runtimeNano", func(m *Machine, a []value) value { return int64(1) })
	n("time.runtimeNow", func(m *Machine, a []value) value { return tuple{int64(1), int64(0), int64(1)} })
	n("time.now", func(m *Machine, a []value) value { return tuple{int64(1), int64(0), int64(1)} })
	n("time.Now", func(m *Machine, a []value) value {
		t := zero(m.P.pkgs["time"].Pkg.Scope().Lookup("Time").Type()).(structure)
		t[1] = m.freshInt("now", big0, bigInt(1<<62))
		return t
	})
	n("(time.Time).UnixNano", func(m *Machine, a []value) value { return a[0].(structure)[1] })
	n("time.Unix", func(m *Machine, a []value) value {
		t := zero(m.P.pkgs["time"].Pkg.Scope().Lookup("Time").Type()).(structure)
		t[1] = a[0]
		return t
	})
	for _, f := range []string{"UTC", "Local"} {
		n("(time.Time)."+f, func(m *Machine, a []value) value { return a[0] })
	}
	n("(time.Time).In", func(m *Machine, a []value) value { return a[0] })
	n("(time.Time).Unix", func(m *Machine, a []value) value { return a[0].(structure)[1] })
	n("(time.Time).Format", func(m *Machine, a []value) value { return m.timeFormat(a[0].(structure)[1], a[1].(string)) })

	addSchemaLib(N)
}

// timeFormat renders a symbolic moment (seconds since the epoch, UTC): every
// field is a symbolic number constrained to be a possible rendering.
func (m *Machine) timeFormat(sec value, layout string) value {
	tt := m.tt
	var out []value
	vals := map[string]*Term{}
	fld := func(name string, lo, hi int64) *Term {
		v := vals[name]
		if v == nil {
			v = m.freshInt("t"+name, bigInt(lo), bigInt(hi))
			vals[name] = v
		}
		return v
	}
	year := func() *Term { return fld("year", 1970, 2038) }
	month := func() *Term { return fld("month", 1, 12) }
	day := func() *Term { return fld("day", 1, 31) }
	hour := func() *Term { return fld("hour", 0, 23) }
	minute := func() *Term { return fld("minute", 0, 59) }
	second := func() *Term { return fld("second", 0, 59) }
	hour12 := func() *Term {
		return tt.iadd(tt.imodEuc(tt.iadd(hour(), tt.int64C(11)), tt.int64C(12)), tt.int64C(1))
	}
	// digits writes v with exactly w digits
	digits := func(v *Term, w int) {
		div := int64(1)
		for i := 1; i < w; i++ {
			div *= 10
		}
		for ; div > 0; div /= 10 {
			b := tt.iadd(tt.imodEuc(tt.idivFloor(v, tt.int64C(div)), tt.int64C(10)), tt.int64C('0'))
			if !b.isConst {
				b.lo, b.hi = bigInt('0'), bigInt('9')
			}
			out = append(out, mkStr([]seg{{k: sByte, t: b}}))
		}
	}
	// plain writes v without padding
	plain := func(v *Term) {
		if m.branch(tt.ile(v, tt.int64C(9))) {
			digits(v, 1)
		} else {
			digits(v, 2)
		}
	}
	name := func(v *Term, lo int64, names []string, w int) {
		for i, s := range names {
			if i == len(names)-1 || m.branch(tt.eq(v, tt.int64C(lo+int64(i)))) {
				if w > 0 {
					s = s[:w]
				}
				out = append(out, s)
				return
			}
		}
	}
	months := []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	days := []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
	chunks := []struct {
		tok string
		do  func()
	}{
		{"January", func() { name(month(), 1, months, 0) }}, {"Jan", func() { name(month(), 1, months, 3) }},
		{"Monday", func() { name(fld("weekday", 0, 6), 0, days, 0) }}, {"Mon", func() { name(fld("weekday", 0, 6), 0, days, 3) }},
		{"MST", func() { out = append(out, "UTC") }},
		{"2006", func() { digits(year(), 4) }}, {"01", func() { digits(month(), 2) }}, {"02", func() { digits(day(), 2) }},
		{"03", func() { digits(hour12(), 2) }}, {"04", func() { digits(minute(), 2) }}, {"05", func() { digits(second(), 2) }},
		{"06", func() { digits(tt.imodEuc(year(), tt.int64C(100)), 2) }}, {"002", nil}, {"15", func() { digits(hour(), 2) }},
		{"_2", nil}, {"1", func() { plain(month()) }}, {"2", func() { plain(day()) }}, {"3", func() { plain(hour12()) }},
		{"4", func() { plain(minute()) }}, {"5", func() { plain(second()) }},
		{"PM", func() {
			if m.branch(tt.ile(hour(), tt.int64C(11))) {
				out = append(out, "AM")
			} else {
				out = append(out, "PM")
			}
		}}, {"pm", nil},
		{"-07:00:00", nil}, {"-070000", nil}, {"Z07:00:00", nil}, {"Z070000", nil},
		{"-07:00", func() { out = append(out, "+00:00") }}, {"-0700", func() { out = append(out, "+0000") }}, {"-07", func() { out = append(out, "+00") }},
		{"Z07:00", func() { out = append(out, "Z") }}, {"Z0700", func() { out = append(out, "Z") }}, {"Z07", func() { out = append(out, "Z") }},
	}
next:
	for len(layout) > 0 {
		// fractions of a second are zero
		if c := layout[0]; (c == '.' || c == ',') && len(layout) > 1 && (layout[1] == '0' || layout[1] == '9') {
			n := 1
			for n < len(layout) && layout[n] == layout[1] {
				n++
			}
			if n == len(layout) || layout[n] < '0' || layout[n] > '9' {
				if layout[1] == '0' {
					out = append(out, layout[:n])
				}
				layout = layout[n:]
				continue
			}
		}
		for _, c := range chunks {
			if strings.HasPrefix(layout, c.tok) {
				if c.do == nil {
					panic(m.unsupported("time layout %q", layout))
				}
				c.do()
				layout = layout[len(c.tok):]
				continue next
			}
		}
		out = append(out, layout[:1])
		layout = layout[1:]
	}
	// calendar: day <= days of the month
	if d, mo, y := vals["day"], vals["month"], vals["year"]; d != nil && mo != nil {
		for _, s := range []int64{4, 6, 9, 11} {
			m.assert(tt.or(tt.not(tt.eq(mo, tt.int64C(s))), tt.ile(d, tt.int64C(30))))
		}
		feb := tt.eq(mo, tt.int64C(2))
		m.assert(tt.or(tt.not(feb), tt.ile(d, tt.int64C(29))))
		if y != nil {
			leap := tt.eq(tt.imodEuc(y, tt.int64C(4)), tt.int64C(0))
			m.assert(tt.or(tt.not(feb), leap, tt.ile(d, tt.int64C(28))))
		}
	}
	_ = sec
	return concat(out...)
}

// ---------------------------------------------------------------- santhosh-tekuri/jsonschema

type schemaRes struct {
	url string
	doc value // iface
}
type schemaCompiler struct {
	res    []*schemaRes
	names  map[string]*schemaRes
	loader value // iface of the URLLoader in use; nil means the default one that reads files
	assert bool  // whether formats are asserted
}
type compiledSchema struct {
	c    *schemaCompiler
	base string
	doc  value // iface
}

// The third-party validator is modelled by the harness oracle: a plain Go
// implementation of the supported keywords, interpreted symbolically.
func addSchemaLib(N map[string]nativeImpl) {
	n := func(name string, f func(m *Machine, a []value) value) { N[name] = nat(f) }
	const js = "github.com/santhosh-tekuri/jsonschema/v6"
	compOf := func(m *Machine, v value) *schemaCompiler {
		p, _ := v.(*value)
		if p == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		return (*p).(*nativeObj).v.(*schemaCompiler)
	}
	n(js+".NewCompiler", func(m *Machine, a []value) value {
		return cell(&nativeObj{"jscompiler", &schemaCompiler{names: map[string]*schemaRes{}}})
	})
	n("(*"+js+".Compiler).UseLoader", func(m *Machine, a []value) value {
		compOf(m, a[0]).loader = a[1]
		return nil
	})
	n("(*"+js+".Compiler).AssertFormat", func(m *Machine, a []value) value {
		compOf(m, a[0]).assert = true
		return nil
	})
	n("("+js+".FileLoader).Load", func(m *Machine, a []value) value {
		u, ok := m.flatString(a[1])
		if !ok {
			panic(m.unsupported("symbolic resource URL"))
		}
		return m.loadFileURL(u)
	})
	n("(*"+js+".Compiler).AddResource", func(m *Machine, a []value) value {
		c := compOf(m, a[0])
		u, ok := m.flatString(a[1])
		if !ok {
			panic(m.unsupported("symbolic resource URL"))
		}
		if i := indexByte(u, '#'); i >= 0 && i != len(u)-1 {
			return m.mkError("jsonschema: " + u + " must not have a fragment")
		}
		if c.names[u] != nil {
			return m.mkError("jsonschema: resource already exists: " + strconv.Quote(u))
		}
		r := &schemaRes{u, a[2]}
		c.names[u] = r
		c.res = append(c.res, r)
		return iface{}
	})
	n("(*"+js+".Compiler).Compile", func(m *Machine, a []value) value {
		c := compOf(m, a[0])
		u, ok := m.flatString(a[1])
		if !ok {
			panic(m.unsupported("symbolic resource URL"))
		}
		r := c.names[u]
		if r == nil {
			return tuple{(*value)(nil), m.mkError("jsonschema: failing loading " + strconv.Quote(u))}
		}
		// structural check and reference check by the oracle
		f := m.P.oracleFn("OracleCompile")
		if f == nil {
			panic(m.unsupported("no OracleCompile"))
		}
		msg := m.call(nil, f, []value{m.resolver(c), r.url, r.doc})
		if s, ok := msg.(string); !ok || s != "" {
			return tuple{(*value)(nil), m.mkError(msg)}
		}
		return tuple{cell(&nativeObj{"jsschema", &compiledSchema{c, r.url, r.doc}}), iface{}}
	})
	n("(*"+js+".Schema).Validate", func(m *Machine, a []value) value {
		p, _ := a[0].(*value)
		if p == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		s := (*p).(*nativeObj).v.(*compiledSchema)
		f := m.P.oracleFn("OracleValidate")
		if f == nil {
			panic(m.unsupported("no OracleValidate"))
		}
		ok := m.call(nil, f, []value{m.resolver(s.c), s.base, s.doc, s.c.assert, a[1]})
		if m.truth(ok) {
			return iface{}
		}
		return m.mkError("jsonschema validation failed")
	})
}

// resolver is a func(url string) (any, bool) over the compiler's resources.
func (m *Machine) resolver(c *schemaCompiler) value {
	return &nativeFn{name: "resolver", f: func(m *Machine, a []value) value {
		u, ok := m.flatString(a[0])
		if !ok {
			panic(m.unsupported("symbolic resource URL"))
		}
		if r := c.names[u]; r != nil {
			return tuple{r.doc, true}
		}
		// what has not been added is loaded
		var doc tuple
		switch l := c.loader.(type) {
		case iface:
			if l.t == nil {
				return tuple{iface{}, false}
			}
			doc = m.call(nil, m.methodByName(l.t, "Load"), []value{l.v, u}).(tuple)
		default:
			doc = m.loadFileURL(u).(tuple)
		}
		if doc[1].(iface).t != nil {
			return tuple{iface{}, false}
		}
		c.names[u] = &schemaRes{u, doc[0]}
		return tuple{doc[0], true}
	}}
}

// loadFileURL is what the default loader of the validator does.
func (m *Machine) loadFileURL(u string) value {
	pu, err := url.Parse(u)
	if err != nil || pu.Scheme != "file" {
		return tuple{iface{}, m.mkError("invalid file url: " + u)}
	}
	c, er := m.readVirtual(pu.Path)
	if c == nil {
		return tuple{iface{}, er}
	}
	cellv := cell(iface{})
	f := m.P.pkgs["encoding/json"].Func("Unmarshal")
	var anyT types.Type = types.NewInterfaceType(nil, nil)
	e := m.call(nil, f, []value{m.toByteSlice(c), iface{t: types.NewPointer(anyT), v: cellv}})
	if e.(iface).t != nil {
		return tuple{iface{}, e}
	}
	return tuple{*cellv, iface{}}
}

func (P *Program) oracleFn(name string) *ssa.Function {
	p := P.pkgs[harnessPkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func indexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

var _ = fmt.Sprint
var _ = big.NewInt
