package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is the engine's representation of a Go value:
//
//	bool | int64 (all signed ints) | uint64 (all unsigned) | float64 | string
//	*Term (symbolic bool/int/float) | *SymStr (symbolic string)
//	structure | array | tuple | []value (slice) | *symBytes ([]byte with symbolic content)
//	*value (pointer) | *mapObj | iface | *closure | *ssa.Function | *ssa.Builtin
//	*nativeObj (opaque object implemented by the engine)
type value any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(m *Machine, args []value) value
}

type nativeObj struct {
	kind string
	v    any
}

// symBytes is a []byte whose contents are a (possibly symbolic) string.
type symBytes struct{ s value }

type mapEntry struct {
	key, val value
	dead     bool
	ckey     string // concrete key, "" when symbolic
}
type mapObj struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	n       int
	nsym    int
}

func isSym(v value) bool {
	switch v.(type) {
	case *Term, *SymStr:
		return true
	}
	return false
}

// zero value of a type
func zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return nil
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		}
		panic(fmt.Sprintf("zero of %v", t))
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*mapObj)(nil)
	case *types.Chan:
		return (*nativeObj)(nil)
	case *types.Signature:
		return (*closure)(nil)
	}
	panic(fmt.Sprintf("zero of %v", t))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *closure:
		return f == nil
	case *ssa.Function:
		return f == nil
	case *nativeFn:
		return f == nil
	}
	return false
}

// keyOf returns a canonical string for a fully concrete comparable value.
func keyOf(v value) (string, bool) {
	switch v := v.(type) {
	case bool:
		if v {
			return "b1", true
		}
		return "b0", true
	case int64:
		return "i" + strconv.FormatInt(v, 10), true
	case uint64:
		return "u" + strconv.FormatUint(v, 10), true
	case float64:
		if v == 0 {
			v = 0
		}
		return "f" + strconv.FormatUint(math.Float64bits(v), 16), true
	case string:
		return "s" + strconv.Itoa(len(v)) + ":" + v, true
	case *value:
		return fmt.Sprintf("p%p", v), true
	case *nativeObj:
		return fmt.Sprintf("n%p", v), true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := keyOf(v.v)
		return "I" + typeKey(v.t) + "|" + k, ok
	case structure:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, x := range v {
			k, ok := keyOf(x)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte(',')
		}
		return sb.String(), true
	case array:
		k, ok := keyOf(structure(v))
		return "a" + k, ok
	case *Term, *SymStr:
		return "", false
	}
	panic(goPanic("runtime error: hash of unhashable type"))
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func newMap() *mapObj { return &mapObj{idx: map[string]*mapEntry{}} }

// lookup finds the entry for k, forking on symbolic equality.
func (m *Machine) mapFind(mo *mapObj, k value) *mapEntry {
	if mo == nil {
		return nil
	}
	ck, ok := keyOf(k)
	if ok {
		if e := mo.idx[ck]; e != nil {
			return e
		}
		if mo.nsym == 0 {
			return nil
		}
	}
	for _, e := range mo.entries {
		if e.dead || (ok && e.ckey != "") {
			continue
		}
		if m.truth(m.equals(e.key, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mo *mapObj, k, v value) {
	if mo == nil {
		panic(goPanic("assignment to entry in nil map"))
	}
	if e := m.mapFind(mo, k); e != nil {
		old := e.val
		e.val = v
		m.onUndo(func() { e.val = old })
		return
	}
	ck, ok := keyOf(k)
	e := &mapEntry{key: k, val: v}
	if ok {
		e.ckey = ck
		mo.idx[ck] = e
	} else {
		mo.nsym++
	}
	mo.entries = append(mo.entries, e)
	mo.n++
	m.onUndo(func() {
		mo.n--
		mo.entries = mo.entries[:len(mo.entries)-1]
		if ok {
			delete(mo.idx, ck)
		} else {
			mo.nsym--
		}
	})
}

func (m *Machine) mapDelete(mo *mapObj, k value) {
	e := m.mapFind(mo, k)
	if e == nil {
		return
	}
	e.dead = true
	mo.n--
	if e.ckey != "" {
		delete(mo.idx, e.ckey)
	} else {
		mo.nsym--
	}
	m.onUndo(func() {
		e.dead = false
		mo.n++
		if e.ckey != "" {
			mo.idx[e.ckey] = e
		} else {
			mo.nsym++
		}
	})
}

func (mo *mapObj) live() []*mapEntry {
	if mo == nil {
		return nil
	}
	out := make([]*mapEntry, 0, mo.n)
	for _, e := range mo.entries {
		if !e.dead {
			out = append(out, e)
		}
	}
	return out
}

// equals returns bool or *Term.
func (m *Machine) equals(x, y value) value {
	switch a := x.(type) {
	case *Term:
		return m.termEq(a, y)
	case *SymStr:
		return m.strEq(x, y)
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		if b, ok := y.(*Term); ok {
			return m.termEq(b, x)
		}
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		if b, ok := y.(*Term); ok {
			return m.termEq(b, x)
		}
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		if b, ok := y.(*Term); ok {
			return m.termEq(b, x)
		}
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		if b, ok := y.(*Term); ok {
			return m.termEq(b, x)
		}
	case complex128:
		return a == y.(complex128)
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return m.strEq(x, y)
	case *value:
		b, _ := y.(*value)
		return a == b
	case *mapObj:
		b, _ := y.(*mapObj)
		return a == b
	case *nativeObj:
		b, _ := y.(*nativeObj)
		return a == b
	case *symBytes:
		return false // compared with nil
	case []value:
		if y == nil {
			return a == nil
		}
		b, _ := y.([]value)
		if _, isSB := y.(*symBytes); isSB {
			return false
		}
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		panic(goPanic("comparing slices"))
	case *closure, *ssa.Function, *nativeFn, *ssa.Builtin:
		return isNilFunc(x) && isNilFunc(y)
	case nil:
		if y == nil {
			return true
		}
		return m.equals(y, x)
	case iface:
		b, ok := y.(iface)
		if !ok {
			return a.t == nil && y == nil
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t && !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			panic(goPanic("runtime error: comparing uncomparable type " + a.t.String()))
		}
		return m.equals(a.v, b.v)
	case structure:
		b := y.(structure)
		return m.equalsSeq(a, b)
	case array:
		return m.equalsSeq(a, y.(array))
	}
	panic(m.unsupported("equals %T %T", x, y))
}

func (m *Machine) equalsSeq(a, b []value) value {
	var acc []*Term
	for i := range a {
		switch e := m.equals(a[i], b[i]).(type) {
		case bool:
			if !e {
				return false
			}
		case *Term:
			acc = append(acc, e)
		}
	}
	if len(acc) == 0 {
		return true
	}
	return m.norm(m.tt.and(acc...))
}

func (m *Machine) termEq(a *Term, y value) value {
	return m.norm(m.tt.eq(a, m.term(y)))
}

// term converts a scalar value to a term.
func (m *Machine) term(v value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return m.tt.boolC(v)
	case int64:
		return m.tt.int64C(v)
	case uint64:
		return m.tt.uint64C(v)
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			panic(m.unsupported("non-finite float in symbolic expression"))
		}
		return m.tt.realC(v)
	}
	panic(m.unsupported("term of %T", v))
}

// norm turns constant terms back into concrete booleans.
func (m *Machine) norm(t *Term) value {
	if t.isConst && t.sort == SBool {
		return t.b
	}
	return t
}

// normInt turns a constant Int term into a concrete value of the given type.
func (m *Machine) normNum(t *Term, ty types.Type) value {
	if !t.isConst {
		return t
	}
	b, _ := ty.Underlying().(*types.Basic)
	switch t.sort {
	case SBool:
		return t.b
	case SInt:
		if b != nil && b.Info()&types.IsUnsigned != 0 {
			return t.i.Uint64()
		}
		if t.i.IsInt64() {
			return t.i.Int64()
		}
		return t
	default:
		f, exact := t.r.Float64()
		if exact {
			return f
		}
		return t
	}
}

func (m *Machine) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.branch(v)
	}
	panic(fmt.Sprintf("truth of %T", v))
}
