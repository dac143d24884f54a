package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A type-directed model of encoding/json over texts with symbolic parts.

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jv struct {
	k          jkind
	b          bool
	num        string // literal number text
	hole       *Term  // or a symbolic number
	str        value
	arr        []*jv
	keys       []value
	vals       []*jv
	start, end int
}

func (k jkind) String() string {
	return [...]string{"null", "bool", "number", "string", "array", "object"}[k]
}

type jch struct {
	c    byte
	hole *seg
}

type jparser struct {
	m   *Machine
	ch  []jch
	pos int
	err string
}

func jchars(text value) []jch {
	var out []jch
	for _, g := range segsOf(text) {
		if g.k == sLit {
			for i := 0; i < len(g.lit); i++ {
				out = append(out, jch{c: g.lit[i]})
			}
		} else {
			gg := g
			out = append(out, jch{hole: &gg})
		}
	}
	return out
}

func (p *jparser) text(a, b int) value {
	var segs []seg
	var sb strings.Builder
	flush := func() {
		if sb.Len() > 0 {
			segs = append(segs, seg{k: sLit, lit: sb.String()})
			sb.Reset()
		}
	}
	for _, c := range p.ch[a:b] {
		if c.hole != nil {
			flush()
			segs = append(segs, *c.hole)
		} else {
			sb.WriteByte(c.c)
		}
	}
	flush()
	return mkStr(segs)
}

func (p *jparser) fail(f string, a ...any) *jv {
	if p.err == "" {
		p.err = fmt.Sprintf(f, a...)
	}
	return nil
}

func (p *jparser) ws() {
	for p.pos < len(p.ch) && p.ch[p.pos].hole == nil {
		switch p.ch[p.pos].c {
		case ' ', '\t', '\n', '\r':
			p.pos++
			continue
		}
		return
	}
}

func (p *jparser) value() *jv {
	p.ws()
	if p.pos >= len(p.ch) {
		return p.fail("unexpected end of JSON input")
	}
	st := p.pos
	c := p.ch[p.pos]
	if c.hole != nil {
		switch c.hole.k {
		case sDec, sFlt:
			p.pos++
			return &jv{k: jNum, hole: c.hole.t, start: st, end: p.pos}
		case sByte:
			// fork over the byte's value
			v := p.m.concretize(c.hole.t).Num().Int64()
			p.ch[p.pos] = jch{c: byte(v)}
			return p.value()
		}
		panic(p.m.unsupported("json text starts with opaque part"))
	}
	switch {
	case c.c == '{':
		o := &jv{k: jObj, start: st}
		p.pos++
		p.ws()
		if p.pos < len(p.ch) && p.ch[p.pos].hole == nil && p.ch[p.pos].c == '}' {
			p.pos++
			o.end = p.pos
			return o
		}
		for {
			p.ws()
			if p.pos >= len(p.ch) || p.ch[p.pos].hole != nil || p.ch[p.pos].c != '"' {
				return p.fail("invalid character looking for beginning of object key string")
			}
			k := p.str()
			if k == nil {
				return nil
			}
			p.ws()
			if p.pos >= len(p.ch) || p.ch[p.pos].hole != nil || p.ch[p.pos].c != ':' {
				return p.fail("invalid character after object key")
			}
			p.pos++
			v := p.value()
			if v == nil {
				return nil
			}
			o.keys = append(o.keys, k)
			o.vals = append(o.vals, v)
			p.ws()
			if p.pos < len(p.ch) && p.ch[p.pos].hole == nil {
				if p.ch[p.pos].c == ',' {
					p.pos++
					continue
				}
				if p.ch[p.pos].c == '}' {
					p.pos++
					o.end = p.pos
					return o
				}
			}
			return p.fail("invalid character after object key:value pair")
		}
	case c.c == '[':
		o := &jv{k: jArr, start: st}
		p.pos++
		p.ws()
		if p.pos < len(p.ch) && p.ch[p.pos].hole == nil && p.ch[p.pos].c == ']' {
			p.pos++
			o.end = p.pos
			return o
		}
		for {
			v := p.value()
			if v == nil {
				return nil
			}
			o.arr = append(o.arr, v)
			p.ws()
			if p.pos < len(p.ch) && p.ch[p.pos].hole == nil {
				if p.ch[p.pos].c == ',' {
					p.pos++
					continue
				}
				if p.ch[p.pos].c == ']' {
					p.pos++
					o.end = p.pos
					return o
				}
			}
			return p.fail("invalid character after array element")
		}
	case c.c == '"':
		s := p.str()
		if s == nil {
			return nil
		}
		return &jv{k: jStr, str: s, start: st, end: p.pos}
	case c.c == '-' || c.c >= '0' && c.c <= '9':
		for p.pos < len(p.ch) {
			h := p.ch[p.pos]
			if h.hole != nil {
				if h.hole.k == sDec || h.hole.k == sFlt {
					// number glued from several parts
					fl := p.m.flatten(&SymStr{[]seg{*h.hole}})
					var ins []jch
					for i := 0; i < len(fl[0].lit); i++ {
						ins = append(ins, jch{c: fl[0].lit[i]})
					}
					p.ch = append(p.ch[:p.pos:p.pos], append(ins, p.ch[p.pos+1:]...)...)
					continue
				}
				break
			}
			if !isNumCh(h.c) {
				break
			}
			p.pos++
		}
		t, _ := p.text(st, p.pos).(string)
		if !json.Valid([]byte(t)) {
			return p.fail("invalid number literal %q", t)
		}
		return &jv{k: jNum, num: t, start: st, end: p.pos}
	}
	for _, w := range []string{"true", "false", "null"} {
		if p.pos+len(w) <= len(p.ch) {
			if t, ok := p.text(p.pos, p.pos+len(w)).(string); ok && t == w {
				p.pos += len(w)
				r := &jv{k: jBool, b: w == "true", start: st, end: p.pos}
				if w == "null" {
					r.k = jNull
				}
				return r
			}
		}
	}
	return p.fail("invalid character %q looking for beginning of value", string(c.c))
}

// str parses a string literal and returns its contents.
func (p *jparser) str() value {
	p.pos++
	var segs []seg
	var lit []byte
	flush := func() bool {
		if len(lit) > 0 {
			var s string
			if err := json.Unmarshal([]byte(`"`+string(lit)+`"`), &s); err != nil {
				p.fail("invalid string literal")
				return false
			}
			segs = append(segs, seg{k: sLit, lit: s})
			lit = nil
		}
		return true
	}
	for p.pos < len(p.ch) {
		c := p.ch[p.pos]
		p.pos++
		if c.hole != nil {
			if c.hole.k == sByte {
				// bytes that need escaping never reach a well-formed text unescaped
				t := c.hole.t
				tt := p.m.tt
				bad := tt.or(tt.eq(t, tt.int64C('"')), tt.eq(t, tt.int64C('\\')), tt.ilt(t, tt.int64C(32)))
				if p.m.branch(bad) {
					v := p.m.concretize(t).Num().Int64()
					p.pos--
					p.ch[p.pos] = jch{c: byte(v)}
					continue
				}
			}
			if !flush() {
				return nil
			}
			segs = append(segs, *c.hole)
			continue
		}
		if c.c == '"' {
			if !flush() {
				return nil
			}
			return mkStr(segs)
		}
		if c.c < 32 {
			p.fail("invalid character in string literal")
			return nil
		}
		lit = append(lit, c.c)
		if c.c == '\\' {
			if p.pos >= len(p.ch) || p.ch[p.pos].hole != nil {
				panic(p.m.unsupported("escape followed by symbolic part"))
			}
			lit = append(lit, p.ch[p.pos].c)
			p.pos++
		}
	}
	p.fail("unexpected end of JSON input")
	return nil
}

func (m *Machine) jsonParse(text value) (*jparser, *jv) {
	p := &jparser{m: m, ch: jchars(text)}
	v := p.value()
	if v == nil {
		return p, nil
	}
	p.ws()
	if p.pos != len(p.ch) {
		p.fail("invalid character after top-level value")
		return p, nil
	}
	return p, v
}

type jdec struct {
	m     *Machine
	p     *jparser
	saved string
}

// jsonUnmarshal decodes text into the pointer dst (an interface holding *T).
func (m *Machine) jsonUnmarshal(text value, dst iface) value {
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if dst.t == nil || !ok {
		return m.mkError("json: Unmarshal(non-pointer)")
	}
	p, v := m.jsonParse(text)
	if v == nil {
		return m.mkError(p.err)
	}
	d := &jdec{m: m, p: p}
	cell := dst.v.(*value)
	if cell == nil {
		return m.mkError("json: Unmarshal(nil)")
	}
	// the top-level pointer itself may implement Unmarshaler
	if err := d.decode(v, pt.Elem(), cell); err != nil {
		return err
	}
	if d.saved != "" {
		return m.mkError(d.saved)
	}
	return iface{}
}

func (d *jdec) save(v *jv, t types.Type) {
	if d.saved == "" {
		d.saved = fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", v.k, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
}

func isRawMessage(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json"
}

// decode stores v into cell of type t; a non-nil result is an error iface that aborts decoding.
func (d *jdec) decode(v *jv, t types.Type, cell *value) value {
	m := d.m
	if isRawMessage(t) {
		m.storeCell(cell, m.toByteSlice(d.p.text(v.start, v.end)))
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.k == jNull {
			m.storeCell(cell, (*value)(nil))
			return nil
		}
		cur, _ := (*cell).(*value)
		if cur == nil {
			cur = new(value)
			*cur = zero(p.Elem())
			m.storeCell(cell, cur)
		}
		return d.decode(v, p.Elem(), cur)
	}
	if _, isIface := t.Underlying().(*types.Interface); !isIface {
		if um := m.methodByName(types.NewPointer(t), "UnmarshalJSON"); um != nil {
			raw := m.toByteSlice(d.p.text(v.start, v.end))
			r := m.call(nil, um, []value{cell, raw})
			if e, ok := r.(iface); ok && e.t != nil {
				return e
			}
			return nil
		}
	}
	if v.k == jNull {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Map, *types.Slice:
			m.storeCell(cell, zero(t))
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.save(v, t)
			return nil
		}
		m.storeCell(cell, m.jsonGeneric(v))
		return nil
	case *types.Struct:
		if v.k != jObj {
			d.save(v, t)
			return nil
		}
		st := (*cell).(structure)
		fields := jsonFields(u)
		for i, k := range v.keys {
			ks, ok := k.(string)
			if !ok {
				panic(m.unsupported("symbolic object key into struct"))
			}
			var f *jfield
			for j := range fields {
				if fields[j].name == ks {
					f = &fields[j]
					break
				}
			}
			if f == nil {
				for j := range fields {
					if strings.EqualFold(fields[j].name, ks) {
						f = &fields[j]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			if err := d.decode(v.vals[i], f.t, &st[f.idx]); err != nil {
				return err
			}
		}
		return nil
	case *types.Map:
		if v.k != jObj {
			d.save(v, t)
			return nil
		}
		mo, _ := (*cell).(*mapObj)
		if mo == nil {
			mo = newMap()
			m.storeCell(cell, mo)
		}
		for i, k := range v.keys {
			c := new(value)
			*c = zero(u.Elem())
			if err := d.decode(v.vals[i], u.Elem(), c); err != nil {
				return err
			}
			m.mapSet(mo, k, *c)
		}
		return nil
	case *types.Slice:
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 && v.k == jStr {
			panic(m.unsupported("base64 bytes"))
		}
		if v.k != jArr {
			d.save(v, t)
			return nil
		}
		out := make([]value, len(v.arr))
		for i := range out {
			out[i] = zero(u.Elem())
		}
		for i, e := range v.arr {
			if err := d.decode(e, u.Elem(), &out[i]); err != nil {
				m.storeCell(cell, out[:i+1])
				return err
			}
		}
		m.storeCell(cell, out)
		return nil
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if v.k != jStr {
				d.save(v, t)
				return nil
			}
			m.storeCell(cell, v.str)
		case u.Info()&types.IsBoolean != 0:
			if v.k != jBool {
				d.save(v, t)
				return nil
			}
			m.storeCell(cell, v.b)
		case u.Info()&types.IsInteger != 0:
			if v.k != jNum {
				d.save(v, t)
				return nil
			}
			k, _ := kindOf(t)
			if v.hole != nil {
				h := v.hole
				if h.sort == SReal {
					fl := m.tt.toInt(h)
					if !m.branch(m.tt.eq(m.tt.toReal(fl), h)) {
						d.save(v, t)
						return nil
					}
					h = fl
				}
				tt := m.tt
				if !m.branch(tt.and(tt.ile(tt.intC(k.min()), h), tt.ile(h, tt.intC(k.max())))) {
					d.save(v, t)
					return nil
				}
				m.storeCell(cell, m.normNum(h, t))
				return nil
			}
			if k.signed {
				n, err := strconv.ParseInt(v.num, 10, int(k.bits))
				if err != nil {
					d.save(v, t)
					return nil
				}
				m.storeCell(cell, n)
			} else {
				n, err := strconv.ParseUint(v.num, 10, int(k.bits))
				if err != nil {
					d.save(v, t)
					return nil
				}
				m.storeCell(cell, n)
			}
		case u.Info()&types.IsFloat != 0:
			if v.k != jNum {
				d.save(v, t)
				return nil
			}
			f, ok := m.jsonFloat(v)
			if !ok {
				d.save(v, t)
				return nil
			}
			m.storeCell(cell, f)
		default:
			panic(m.unsupported("json decode into %s", t))
		}
		return nil
	}
	panic(m.unsupported("json decode into %s", t))
}

func (m *Machine) jsonFloat(v *jv) (value, bool) {
	if v.hole != nil {
		if v.hole.sort == SInt {
			return m.normNum(m.rounded(m.tt.toReal(v.hole), "i2f"), types.Typ[types.Float64]), true
		}
		return v.hole, true
	}
	f, err := strconv.ParseFloat(v.num, 64)
	if err != nil {
		return nil, false
	}
	return f, true
}

var (
	tAny     = types.NewInterfaceType(nil, nil)
	tMapAny  = types.NewMap(types.Typ[types.String], tAny)
	tSlcAny  = types.NewSlice(tAny)
	tFloat64 = types.Typ[types.Float64]
	tString  = types.Typ[types.String]
	tBool    = types.Typ[types.Bool]
	tInt     = types.Typ[types.Int]
)

// jsonGeneric decodes into interface{}.
func (m *Machine) jsonGeneric(v *jv) value {
	switch v.k {
	case jNull:
		return iface{}
	case jBool:
		return iface{tBool, v.b}
	case jNum:
		f, ok := m.jsonFloat(v)
		if !ok {
			panic(m.unsupported("number out of range"))
		}
		return iface{tFloat64, f}
	case jStr:
		return iface{tString, v.str}
	case jArr:
		out := make([]value, len(v.arr))
		for i, e := range v.arr {
			out[i] = m.jsonGeneric(e)
		}
		return iface{tSlcAny, out}
	default:
		mo := newMap()
		for i, k := range v.keys {
			m.mapSet(mo, k, m.jsonGeneric(v.vals[i]))
		}
		return iface{tMapAny, mo}
	}
}

type jfield struct {
	name string
	idx  int
	t    types.Type
	omit bool
	str  bool
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		n := parts[0]
		if n == "" {
			n = f.Name()
		}
		jf := jfield{name: n, idx: i, t: f.Type()}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
		}
		out = append(out, jf)
	}
	return out
}

// ---------------------------------------------------------------- encoding

type jencErr struct{ e value }

// jsonMarshal returns the text of v (an interface value) or an error.
func (m *Machine) jsonMarshal(v iface) (out value, err value) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jencErr); ok {
				out, err = nil, je.e
				return
			}
			panic(r)
		}
	}()
	if v.t == nil {
		return "null", nil
	}
	return m.jsonEnc(v.v, v.t, nil), nil
}

func (m *Machine) jsonQuote(s value) value {
	var parts []value
	parts = append(parts, `"`)
	for _, g := range segsOf(s) {
		switch g.k {
		case sLit:
			b, _ := json.Marshal(g.lit)
			parts = append(parts, string(b[1:len(b)-1]))
		case sByte:
			tt := m.tt
			safe := tt.and(tt.ile(tt.int64C(32), g.t), tt.ile(g.t, tt.int64C(126)))
			for _, c := range []int64{'"', '\\', '<', '>', '&'} {
				safe = tt.and(safe, tt.not(tt.eq(g.t, tt.int64C(c))))
			}
			if m.branch(safe) {
				parts = append(parts, mkStr([]seg{g}))
			} else {
				c := m.concretize(g.t).Num().Int64()
				b, _ := json.Marshal(string([]byte{byte(c)}))
				parts = append(parts, string(b[1:len(b)-1]))
			}
		default:
			parts = append(parts, mkStr([]seg{g}))
		}
	}
	parts = append(parts, `"`)
	return concat(parts...)
}

func (m *Machine) jsonEnc(v value, t types.Type, addr *value) value {
	if isRawMessage(t) {
		s := m.strOfBytes(v)
		if s == "" {
			return "null"
		}
		return s
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		it := v.(iface)
		if it.t == nil {
			return "null"
		}
		return m.jsonEnc(it.v, it.t, nil)
	}
	if p, ok := v.(*value); ok && p == nil {
		return "null"
	}
	if mm := m.methodByName(t, "MarshalJSON"); mm != nil {
		return m.callMarshal(mm, v)
	}
	if addr != nil {
		if mm := m.methodByName(types.NewPointer(t), "MarshalJSON"); mm != nil {
			return m.callMarshal(mm, addr)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := v.(*value)
		return m.jsonEnc(*c, u.Elem(), c)
	case *types.Struct:
		st := v.(structure)
		parts := []value{"{"}
		first := true
		for _, f := range jsonFields(u) {
			fv := st[f.idx]
			if f.omit && m.jsonEmpty(fv) {
				continue
			}
			if !first {
				parts = append(parts, ",")
			}
			first = false
			b, _ := json.Marshal(f.name)
			parts = append(parts, string(b)+":")
			var fa *value
			if addr != nil {
				fa = &st[f.idx]
			}
			parts = append(parts, m.jsonEnc(fv, f.t, fa))
		}
		parts = append(parts, "}")
		return concat(parts...)
	case *types.Map:
		mo, _ := v.(*mapObj)
		if mo == nil {
			return "null"
		}
		es := mo.live()
		sort.SliceStable(es, func(i, j int) bool {
			return m.truth(m.strLess(es[i].key, es[j].key))
		})
		parts := []value{"{"}
		for i, e := range es {
			if i > 0 {
				parts = append(parts, ",")
			}
			parts = append(parts, m.jsonQuote(e.key), ":", m.jsonEnc(e.val, u.Elem(), nil))
		}
		parts = append(parts, "}")
		return concat(parts...)
	case *types.Slice:
		if sb, ok := v.(*symBytes); ok {
			_ = sb
			panic(m.unsupported("base64 encoding"))
		}
		s, _ := v.([]value)
		if s == nil {
			return "null"
		}
		parts := []value{"["}
		for i := range s {
			if i > 0 {
				parts = append(parts, ",")
			}
			parts = append(parts, m.jsonEnc(s[i], u.Elem(), &s[i]))
		}
		parts = append(parts, "]")
		return concat(parts...)
	case *types.Array:
		a := v.(array)
		parts := []value{"["}
		for i := range a {
			if i > 0 {
				parts = append(parts, ",")
			}
			parts = append(parts, m.jsonEnc(a[i], u.Elem(), nil))
		}
		parts = append(parts, "]")
		return concat(parts...)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if m.truth(v) {
				return "true"
			}
			return "false"
		case u.Info()&types.IsInteger != 0:
			return m.decText(v)
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				if f != f || f > 1.797693134862315708145274237317043567981e+308 || f < -1.797693134862315708145274237317043567981e+308 {
					panic(jencErr{m.mkError("json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64))})
				}
			}
			return m.fltText(v)
		case u.Info()&types.IsString != 0:
			return m.jsonQuote(v)
		}
	case *types.Signature, *types.Chan:
		panic(jencErr{m.mkError("json: unsupported type: " + t.String())})
	}
	panic(m.unsupported("json encode %s", t))
}

func (m *Machine) callMarshal(fn value, recv value) value {
	r := m.call(nil, fn, []value{recv}).(tuple)
	if e, ok := r[1].(iface); ok && e.t != nil {
		panic(jencErr{e})
	}
	s := m.strOfBytes(r[0])
	// encoding/json compacts and validates the returned text
	if cs, ok := s.(string); ok {
		var sb strings.Builder
		if !json.Valid([]byte(cs)) {
			panic(jencErr{m.mkError("json: error calling MarshalJSON: invalid text")})
		}
		_ = sb
		if strings.ContainsAny(cs, " \n\t\r") {
			var buf strings.Builder
			compactJSON(&buf, cs)
			return buf.String()
		}
	}
	return s
}

func compactJSON(w *strings.Builder, s string) {
	in := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in {
			w.WriteByte(c)
			if c == '\\' {
				i++
				w.WriteByte(s[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			continue
		}
		if c == '"' {
			in = true
		}
		w.WriteByte(c)
	}
}

func (m *Machine) jsonEmpty(v value) bool {
	switch v := v.(type) {
	case bool:
		return !v
	case int64:
		return v == 0
	case uint64:
		return v == 0
	case float64:
		return v == 0
	case string:
		return v == ""
	case *Term:
		if v.sort == SBool {
			return !m.branch(v)
		}
		return m.branch(m.tt.eq(v, m.tt.intOrReal0(v)))
	case *SymStr:
		l := m.strLen(v)
		if n, ok := l.(int64); ok {
			return n == 0
		}
		return m.branch(m.tt.eq(l.(*Term), m.tt.int64C(0)))
	case *value:
		return v == nil
	case []value:
		return len(v) == 0
	case *mapObj:
		return v == nil || v.n == 0
	case iface:
		return v.t == nil
	case array:
		return len(v) == 0
	}
	return false
}

func (tt *termTable) intOrReal0(v *Term) *Term {
	if v.sort == SInt {
		return tt.int64C(0)
	}
	return tt.realC(0)
}

// jsonIndent re-indents a JSON text (MarshalIndent).
func (m *Machine) jsonIndent(text value, prefix, indent string) value {
	if s, ok := text.(string); ok {
		var out strings.Builder
		b := []byte(s)
		_ = b
		var buf strings.Builder
		indentJSON(&buf, s, prefix, indent)
		out.WriteString(buf.String())
		return out.String()
	}
	panic(m.unsupported("indent of symbolic text"))
}

func indentJSON(w *strings.Builder, s, prefix, indent string) {
	var raw json.RawMessage = []byte(s)
	b, err := json.MarshalIndent(raw, prefix, indent)
	if err == nil {
		w.Write(b)
	}
}

var _ = utf8.RuneError
var _ = big.NewInt
