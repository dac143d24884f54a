package main

import "go/types"

// deepEqual is reflect.DeepEqual on values of the same type.
func (m *Machine) deepEqual(x, y value, depth int) bool {
	if depth > 200 {
		panic(m.unsupported("reflect.DeepEqual of a deep value"))
	}
	switch a := x.(type) {
	case iface:
		b, _ := y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		return types.Identical(a.t, b.t) && m.deepEqual(a.v, b.v, depth+1)
	case structure:
		b := y.(structure)
		for i := range a {
			if !m.deepEqual(a[i], b[i], depth+1) {
				return false
			}
		}
		return true
	case array:
		b := y.(array)
		for i := range a {
			if !m.deepEqual(a[i], b[i], depth+1) {
				return false
			}
		}
		return true
	case []value:
		b, ok := y.([]value)
		if !ok {
			return m.deepEqual(m.strOfBytes(x), m.strOfBytes(y), depth+1)
		}
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !m.deepEqual(a[i], b[i], depth+1) {
				return false
			}
		}
		return true
	case *symBytes:
		return m.deepEqual(m.strOfBytes(x), m.strOfBytes(y), depth+1)
	case *value:
		b, _ := y.(*value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return m.deepEqual(*a, *b, depth+1)
	case *mapObj:
		b, _ := y.(*mapObj)
		if a == b {
			return true
		}
		if a == nil || b == nil || a.n != b.n {
			return false
		}
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			o := m.mapFind(b, e.key)
			if o == nil || !m.deepEqual(e.val, o.val, depth+1) {
				return false
			}
		}
		return true
	}
	return m.truth(m.equals(x, y))
}
