package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx        map[ssa.Value]int
	n          int
	native     nativeImpl
	consts     map[*ssa.Const]value
	merge      int8 // 0 unknown 1 no 2 yes
	mergeFails int
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

type frame struct {
	fn        *ssa.Function
	info      *fnInfo
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    value
	panicking bool
	panicV    any
	caller    *frame
}

const maxDepth = 1500
const maxPathSteps = 6_000_000

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if in := m.infos[fn]; in != nil {
		return in
	}
	in := &fnInfo{idx: map[ssa.Value]int{}, consts: map[*ssa.Const]value{}}
	for _, p := range fn.Params {
		in.idx[p] = in.n
		in.n++
	}
	for _, p := range fn.FreeVars {
		in.idx[p] = in.n
		in.n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				in.idx[v] = in.n
				in.n++
			}
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	in.native = m.P.natives[name]
	if in.native == nil && fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "internal/jsonschema") {
		if sg := fn.Signature; sg.Params().Len() == 1 && types.IsInterface(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), types.Typ[types.Bool]) {
			in.native = judgeOpaque
		}
	}
	m.infos[fn] = in
	return in
}

func (fr *frame) get(m *Machine, v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		if c, ok := fr.info.consts[v]; ok {
			return c
		}
		c := constValue(v)
		switch c.(type) {
		case structure, array:
			return c
		}
		fr.info.consts[v] = c
		return c
	case *ssa.Global:
		return m.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case nil:
		return nil
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := c.Type().(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsUnsigned != 0:
			return c.Uint64()
		case b.Info()&types.IsInteger != 0:
			return c.Int64()
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

// skipInit lists packages whose initialisers talk to the runtime; their
// globals keep their zero values.
var skipInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "internal/poll": true, "internal/godebug": true,
	"net": true, "internal/cpu": true, "reflect": true, "internal/reflectlite": true, "net/http": true,
	"internal/bisect": true, "crypto/tls": true, "testing": true, "log": true, "mime": true, "io/fs": false, "math/rand": true, "encoding/json": true,
	"golang.org/x/net/idna": true}

func (m *Machine) global(g *ssa.Global) *value {
	if p := m.globals[g]; p != nil {
		m.ensureInit(g.Pkg)
		return p
	}
	for _, mem := range g.Pkg.Members {
		if gg, ok := mem.(*ssa.Global); ok {
			c := new(value)
			*c = zero(gg.Type().(*types.Pointer).Elem())
			m.globals[gg] = c
		}
	}
	if m.globals[g] == nil {
		c := new(value)
		*c = zero(g.Type().(*types.Pointer).Elem())
		m.globals[g] = c
	}
	m.ensureInit(g.Pkg)
	return m.globals[g]
}

func (m *Machine) ensureInit(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	if skipInit[p.Pkg.Path()] {
		m.stdGlobals(p)
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	m.inInit++
	savedStack := m.stack
	savedDepth := m.depth
	savedSteps := m.pathSteps
	defer func() {
		m.inInit--
		m.stack, m.depth, m.pathSteps = savedStack, savedDepth, savedSteps
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			switch r := r.(type) {
			case pathEnd:
				msg = r.msg
			case targetPanic:
				msg = m.panicText(r)
			}
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), "incomplete:", msg)
			}
			m.ex.mu.Lock()
			m.ex.initPartial[p.Pkg.Path()] = msg
			m.ex.mu.Unlock()
		}
	}()
	m.callFunction(nil, f, nil, nil)
}

// stdGlobals gives a few well-known error globals of skipped packages an identity.
func (m *Machine) stdGlobals(p *ssa.Package) {
	errT := m.P.errorStringPtr()
	if errT == nil {
		return
	}
	for g, c := range m.globals {
		if g.Pkg != p {
			continue
		}
		et := g.Type().(*types.Pointer).Elem()
		if types.Identical(et, types.Universe.Lookup("error").Type()) {
			cell := new(value)
			*cell = structure{p.Pkg.Path() + "." + g.Name()}
			*c = iface{t: errT, v: cell}
			if path := p.Pkg.Path(); path == "os" {
				// os re-exports the errors of io/fs
				if fg := m.P.pkgs["io/fs"].Var(g.Name()); fg != nil {
					*c = copyVal(*m.global(fg))
				}
			}
		}
		if p.Pkg.Path() == "os" && (g.Name() == "Stdin" || g.Name() == "Stdout" || g.Name() == "Stderr") {
			*c = cell(&nativeObj{"file", strings.ToLower(g.Name())})
		}
		if p.Pkg.Path() == "net/http" && g.Name() == "DefaultClient" {
			cell := new(value)
			*cell = zero(et.(*types.Pointer).Elem())
			*c = cell
		}
	}
}

func (P *Program) errorStringPtr() types.Type {
	p := P.pkgs["errors"]
	if p == nil {
		return nil
	}
	return types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
}

func (m *Machine) mkError(s value) value {
	cell := new(value)
	*cell = structure{s}
	return iface{t: m.P.errT(), v: cell}
}

func (P *Program) errT() types.Type {
	if v, ok := P.byName.Load("errT"); ok {
		return v.(types.Type)
	}
	t := P.errorStringPtr()
	v, _ := P.byName.LoadOrStore("errT", t)
	return v.(types.Type)
}

// ---------------------------------------------------------------- calls

func (m *Machine) call(caller *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		return m.callFunction(caller, f, args, nil)
	case *closure:
		if f == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		return m.callFunction(caller, f.fn, args, f.env)
	case *nativeFn:
		return f.f(m, args)
	case *ssa.Builtin:
		return m.callBuiltin(caller, f, args, nil)
	case nil:
		panic(m.rtError("invalid memory address or nil pointer dereference"))
	}
	panic(fmt.Sprintf("call of %T", fn))
}

func (m *Machine) rtError(msg string) targetPanic {
	return targetPanic{msg: "runtime error: " + msg}
}

func (m *Machine) callFunction(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if m.inInit > 0 && fn.Name() == "init" && caller != nil && fn.Synthetic == "package initializer" {
		return nil // other packages are initialised lazily
	}
	in := m.info(fn)
	if in.native != nil {
		if r, ok := in.native(m, &callCtx{fn, args, caller}); ok {
			return r
		}
	}
	if len(fn.Blocks) == 0 {
		panic(m.unsupported("no body: %s", fn))
	}
	if m.mg == nil && m.inInit == 0 && m.mergeable(fn, in, args) {
		if r, ok := m.mergeCall(caller, fn, in, args); ok {
			return r
		}
	}
	return m.callBody(caller, fn, in, args, env)
}

func (m *Machine) callBody(caller *frame, fn *ssa.Function, in *fnInfo, args []value, env []value) value {
	m.depth++
	if m.depth > maxDepth {
		m.depth = 0
		panic(pathEnd{"depth", "call depth limit at " + fn.String()})
	}
	m.stack = append(m.stack, fn)
	if m.inInit == 0 && !m.curFns[fn] {
		m.curFns[fn] = true
	}
	fr := &frame{fn: fn, info: in, env: make([]value, in.n), caller: caller}
	copy(fr.env, args)
	if len(env) > 0 {
		copy(fr.env[len(fn.Params):], env)
	}
	fr.block = fn.Blocks[0]
	d0, s0 := m.depth, len(m.stack)
	for fr.block != nil {
		m.runFrame(fr)
		m.depth, m.stack = d0, m.stack[:s0]
	}
	m.depth--
	m.stack = m.stack[:len(m.stack)-1]
	return fr.result
}

// runFrame executes until return or until a panic was recovered.
func (m *Machine) runFrame(fr *frame) {
	if fr.fn.Recover != nil || hasDefer(fr.fn) {
		defer func() {
			if fr.block == nil {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = true
			fr.panicV = tp
			m.runDefers(fr)
			// recovered
			fr.block = fr.fn.Recover
			if fr.block == nil {
				// no named results: return zero values
				fr.result = zero(fr.fn.Signature.Results())
				if t, ok := fr.result.(tuple); ok {
					if len(t) == 1 {
						fr.result = t[0]
					} else if len(t) == 0 {
						fr.result = nil
					}
				}
			}
		}()
	}
	for {
		b := fr.block
		next := false
	instrs:
		for _, ins := range b.Instrs {
			m.steps++
			m.pathSteps++
			if m.pathSteps > maxPathSteps && m.inInit == 0 {
				panic(pathEnd{"steps", "instruction limit in " + fr.fn.String()})
			}
			switch m.visit(fr, ins) {
			case kNext:
			case kJump:
				next = true
				break instrs
			case kReturn:
				fr.block = nil
				return
			}
		}
		if !next {
			panic("block fell through")
		}
		if m.pathSteps&0xfff < 16 && m.inInit == 0 && m.ex.expired() {
			panic(pathEnd{"budget", "time budget"})
		}
	}
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = tp
				}
			}()
			m.call(fr, d.fn, d.args)
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

const (
	kNext = iota
	kJump
	kReturn
)

func (m *Machine) set(fr *frame, v ssa.Value, x value) { fr.env[fr.info.idx[v]] = x }

func (m *Machine) visit(fr *frame, ins ssa.Instruction) int {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		m.set(fr, i, m.unop(i, fr.get(m, i.X)))
	case *ssa.BinOp:
		m.set(fr, i, m.binop(i.Op, i.X.Type(), fr.get(m, i.X), fr.get(m, i.Y)))
	case *ssa.Call:
		fn, args := m.prepareCall(fr, &i.Call)
		var r value
		if b, ok := fn.(*ssa.Builtin); ok {
			r = m.callBuiltin(fr, b, args, &i.Call)
		} else {
			r = m.call(fr, fn, args)
		}
		m.set(fr, i, r)
	case *ssa.ChangeInterface:
		m.set(fr, i, fr.get(m, i.X))
	case *ssa.ChangeType:
		m.set(fr, i, fr.get(m, i.X))
	case *ssa.Convert:
		m.set(fr, i, m.convert(i.Type(), i.X.Type(), fr.get(m, i.X)))
	case *ssa.MultiConvert:
		m.set(fr, i, m.convert(i.Type(), i.X.Type(), fr.get(m, i.X)))
	case *ssa.SliceToArrayPointer:
		panic(m.unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		m.set(fr, i, iface{t: i.X.Type(), v: copyVal(fr.get(m, i.X))})
	case *ssa.Extract:
		m.set(fr, i, fr.get(m, i.Tuple).(tuple)[i.Index])
	case *ssa.Slice:
		m.set(fr, i, m.slice(i, fr))
	case *ssa.Return:
		switch len(i.Results) {
		case 0:
		case 1:
			fr.result = fr.get(m, i.Results[0])
		default:
			t := make(tuple, len(i.Results))
			for k, r := range i.Results {
				t[k] = fr.get(m, r)
			}
			fr.result = t
		}
		return kReturn
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.Panic:
		panic(targetPanic{v: fr.get(m, i.X)})
	case *ssa.Store:
		m.store(fr.get(m, i.Addr), fr.get(m, i.Val))
	case *ssa.If:
		s := 1
		if m.truth(fr.get(m, i.Cond)) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		m.phis(fr)
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		m.phis(fr)
		return kJump
	case *ssa.Phi:
		// handled at block entry
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &i.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Go:
		panic(m.unsupported("go statement"))
	case *ssa.MakeChan:
		m.set(fr, i, &nativeObj{kind: "chan"})
	case *ssa.Send, *ssa.Select:
		panic(m.unsupported("channel operation"))
	case *ssa.Alloc:
		c := new(value)
		*c = zero(i.Type().Underlying().(*types.Pointer).Elem())
		m.set(fr, i, c)
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(m, i.Len))
		c := m.concInt(fr.get(m, i.Cap))
		if n < 0 || c < n {
			panic(m.rtError("makeslice: len out of range"))
		}
		if c > 1<<20 {
			panic(m.unsupported("makeslice of %d", c))
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		s := make([]value, c)
		for k := range s {
			s[k] = zero(et)
		}
		m.set(fr, i, s[:n:c])
	case *ssa.MakeMap:
		m.set(fr, i, newMap())
	case *ssa.MakeClosure:
		env := make([]value, len(i.Bindings))
		for k, b := range i.Bindings {
			env[k] = fr.get(m, b)
		}
		m.set(fr, i, &closure{i.Fn.(*ssa.Function), env})
	case *ssa.Range:
		m.set(fr, i, m.rangeIter(fr.get(m, i.X)))
	case *ssa.Next:
		m.set(fr, i, fr.get(m, i.Iter).(*iter).next(m))
	case *ssa.FieldAddr:
		p, _ := fr.get(m, i.X).(*value)
		if p == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		st, ok := (*p).(structure)
		if !ok {
			panic(m.unsupported("field of %T (%s)", *p, i.X.Type()))
		}
		m.set(fr, i, &st[i.Field])
	case *ssa.Field:
		st, ok := fr.get(m, i.X).(structure)
		if !ok {
			panic(m.unsupported("field of %T", fr.get(m, i.X)))
		}
		m.set(fr, i, st[i.Field])
	case *ssa.IndexAddr:
		m.set(fr, i, m.indexAddr(fr.get(m, i.X), fr.get(m, i.Index)))
	case *ssa.Index:
		x := fr.get(m, i.X)
		idx := fr.get(m, i.Index)
		switch x := x.(type) {
		case array:
			m.set(fr, i, *m.indexAddr([]value(x), idx))
		case string, *SymStr:
			m.set(fr, i, m.strIndex(x, idx))
		default:
			panic(m.unsupported("index %T", x))
		}
	case *ssa.Lookup:
		m.set(fr, i, m.lookup(i, fr.get(m, i.X), fr.get(m, i.Index)))
	case *ssa.MapUpdate:
		mo, _ := fr.get(m, i.Map).(*mapObj)
		m.mapSet(mo, copyVal(fr.get(m, i.Key)), copyVal(fr.get(m, i.Value)))
	case *ssa.TypeAssert:
		m.set(fr, i, m.typeAssert(i, fr.get(m, i.X)))
	default:
		panic(m.unsupported("instruction %T", ins))
	}
	return kNext
}

func (m *Machine) phis(fr *frame) {
	b := fr.block
	if len(b.Instrs) == 0 {
		return
	}
	if _, ok := b.Instrs[0].(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for k, p := range b.Preds {
		if p == fr.prev {
			pi = k
			break
		}
	}
	var vals []value
	var ps []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, fr.get(m, p.Edges[pi]))
	}
	for k, p := range ps {
		m.set(fr, p, vals[k])
	}
}

func (m *Machine) prepareCall(fr *frame, c *ssa.CallCommon) (value, []value) {
	var args []value
	var fn value
	v := fr.get(m, c.Value)
	if c.Method == nil {
		fn = v
	} else {
		recv, ok := v.(iface)
		if !ok || recv.t == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		fn = m.lookupMethod(recv.t, c.Method)
		args = append(args, copyVal(recv.v))
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(m, a)))
	}
	return fn, args
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) value {
	k := typeKey(t) + "#" + meth.Id()
	if f, ok := m.mcache[k]; ok {
		return f
	}
	f := m.P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(m.unsupported("method %s on %s", meth.Name(), t))
	}
	m.mcache[k] = f
	return f
}

// methodByName finds a method in the method set of t.
func (m *Machine) methodByName(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	k := typeKey(t) + "##" + name
	if f, ok := m.mcache[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := m.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = m.P.prog.MethodValue(ms.At(i))
			break
		}
	}
	m.mcache[k] = f
	return f
}

// ---------------------------------------------------------------- memory

func (m *Machine) load(p value) value {
	c, _ := p.(*value)
	if c == nil {
		panic(m.rtError("invalid memory address or nil pointer dereference"))
	}
	return copyVal(*c)
}

func (m *Machine) store(p value, v value) {
	c, _ := p.(*value)
	if c == nil {
		panic(m.rtError("invalid memory address or nil pointer dereference"))
	}
	m.storeCell(c, v)
}

func (m *Machine) storeCell(c *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*c).(structure); ok && len(dst) == len(v) {
			for i := range v {
				m.storeCell(&dst[i], v[i])
			}
			return
		}
		m.setCell(c, copyVal(v))
		return
	case array:
		if dst, ok := (*c).(array); ok && len(dst) == len(v) {
			for i := range v {
				m.storeCell(&dst[i], v[i])
			}
			return
		}
		m.setCell(c, copyVal(v))
		return
	}
	m.setCell(c, v)
}

func (m *Machine) indexAddr(x value, idx value) *value {
	var s []value
	switch x := x.(type) {
	case []value:
		s = x
	case array:
		s = x
	case *value:
		if x == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		s = []value((*x).(array))
	case *symBytes:
		s = m.bytesOf(x.s)
	case nil:
	default:
		panic(m.unsupported("indexAddr %T", x))
	}
	var i int64
	switch t := idx.(type) {
	case int64:
		i = t
	case uint64:
		i = int64(t)
	case *Term:
		tt := m.tt
		if !m.branch(tt.and(tt.ile(tt.int64C(0), t), tt.ilt(t, tt.int64C(int64(len(s)))))) {
			panic(m.rtError(fmt.Sprintf("index out of range with length %d", len(s))))
		}
		i = m.concretize(t).Num().Int64()
	}
	if i < 0 || i >= int64(len(s)) {
		panic(m.rtError(fmt.Sprintf("index out of range [%d] with length %d", i, len(s))))
	}
	return &s[i]
}

func (m *Machine) lookup(i *ssa.Lookup, x, k value) value {
	switch x := x.(type) {
	case *mapObj:
		e := m.mapFind(x, k)
		var v value
		if e != nil {
			v = copyVal(e.val)
		} else {
			v = zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			return tuple{v, e != nil}
		}
		return v
	case nil:
		v := zero(i.X.Type().Underlying().(*types.Map).Elem())
		if i.CommaOk {
			return tuple{v, false}
		}
		return v
	case string, *SymStr:
		return m.strIndex(x, k)
	}
	panic(m.unsupported("lookup %T", x))
}

func (m *Machine) typeAssert(i *ssa.TypeAssert, x value) value {
	itf, _ := x.(iface)
	ok := false
	var v value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		if itf.t != nil && types.Implements(itf.t, it) {
			ok, v = true, itf
		} else {
			v = iface{}
		}
	} else {
		if itf.t != nil && types.Identical(itf.t, i.AssertedType) {
			ok, v = true, copyVal(itf.v)
		} else {
			v = zero(i.AssertedType)
		}
	}
	if i.CommaOk {
		return tuple{v, ok}
	}
	if !ok {
		from := "nil"
		if itf.t != nil {
			from = itf.t.String()
		}
		panic(targetPanic{msg: fmt.Sprintf("interface conversion: interface is %s, not %s", from, i.AssertedType)})
	}
	return v
}

func (m *Machine) slice(i *ssa.Slice, fr *frame) value {
	x := fr.get(m, i.X)
	var lo, hi, max value
	if i.Low != nil {
		lo = fr.get(m, i.Low)
	}
	if i.High != nil {
		hi = fr.get(m, i.High)
	}
	if i.Max != nil {
		max = fr.get(m, i.Max)
	}
	fixu := func(v value) value {
		if u, ok := v.(uint64); ok {
			return int64(u)
		}
		return v
	}
	lo, hi, max = fixu(lo), fixu(hi), fixu(max)
	switch s := x.(type) {
	case string, *SymStr:
		return m.strSlice(s, lo, hi)
	case *symBytes:
		return &symBytes{m.strSlice(s.s, lo, hi)}
	}
	var s []value
	switch x := x.(type) {
	case []value:
		s = x
	case *value:
		if x == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		s = []value((*x).(array))
	case nil:
	default:
		panic(m.unsupported("slice %T", x))
	}
	l, h, c := int64(0), int64(len(s)), int64(cap(s))
	if hi != nil {
		h = m.boundedIdx(hi, c)
	}
	if max != nil {
		c = m.concInt(max)
	}
	if lo != nil {
		l = m.boundedIdx(lo, h)
	}
	if l < 0 || h < l || c < h || c > int64(cap(s)) {
		panic(m.rtError(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(s))))
	}
	if s == nil {
		return []value(nil)
	}
	return s[l:h:c]
}

func (m *Machine) boundedIdx(v value, limit int64) int64 {
	if t, ok := v.(*Term); ok {
		tt := m.tt
		if !m.branch(tt.and(tt.ile(tt.int64C(0), t), tt.ile(t, tt.int64C(limit)))) {
			panic(m.rtError("slice bounds out of range"))
		}
	}
	return m.concInt(v)
}

// ---------------------------------------------------------------- iteration

type iter struct {
	str   []value
	runes bool
	pos   int
	ents  []*mapEntry
	s     value
}

func (m *Machine) rangeIter(x value) value {
	switch x := x.(type) {
	case *mapObj:
		return &iter{ents: m.orderEntries(x.live())}
	case nil:
		return &iter{}
	case string:
		return &iter{runes: true, s: x}
	case *SymStr:
		return &iter{runes: true, str: m.bytesOf(x)}
	}
	panic(m.unsupported("range over %T", x))
}

func (m *Machine) orderEntries(es []*mapEntry) []*mapEntry {
	if m.hstate["reverseMaps"] == true && m.inInit == 0 {
		out := make([]*mapEntry, len(es))
		for i, e := range es {
			out[len(es)-1-i] = e
		}
		return out
	}
	return es
}

func (it *iter) next(m *Machine) value {
	if it.runes {
		if it.s != nil {
			s := it.s.(string)
			if it.pos >= len(s) {
				return tuple{false, int64(0), int64(0)}
			}
			p := it.pos
			for i, r := range s[p:] {
				if i > 0 {
					break
				}
				n := len(string(r))
				if r == 0xFFFD {
					n = 1
					if strings.HasPrefix(s[p:], "\uFFFD") {
						n = 3
					}
				}
				it.pos = p + n
				return tuple{true, int64(p), int64(r)}
			}
		}
		if it.pos >= len(it.str) {
			return tuple{false, int64(0), int64(0)}
		}
		r, n := m.decodeRune(it.str[it.pos:])
		p := it.pos
		it.pos += n
		return tuple{true, int64(p), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return tuple{true, copyVal(e.key), copyVal(e.val)}
	}
	return tuple{false, nil, nil}
}

// decodeRune decodes one rune from bytes that may be symbolic; symbolic bytes
// at or above 0x80 are not followed.
func (m *Machine) decodeRune(bs []value) (value, int) {
	sym := false
	for k := 0; k < len(bs) && k < 4; k++ {
		if _, ok := bs[k].(*Term); ok {
			sym = true
		}
	}
	if sym {
		return m.decodeSymRune(bs)
	}
	n := 0
	buf := []byte{}
	for n < len(bs) && n < 4 {
		b, ok := bs[n].(uint64)
		if !ok {
			break
		}
		buf = append(buf, byte(b))
		n++
	}
	for _, r := range string(buf) {
		l := len(string(r))
		if r == 0xFFFD && !strings.HasPrefix(string(buf), "\uFFFD") {
			l = 1
		}
		return int64(r), l
	}
	return int64(0xFFFD), 1
}

// decodeSymRune decodes the first rune of a text some of whose bytes are
// symbolic, branching over the length of the encoding.
func (m *Machine) decodeSymRune(bs []value) (value, int) {
	tt := m.tt
	c := func(n int64) *Term { return tt.int64C(n) }
	b := func(k int) *Term { return m.term(bs[k]) }
	within := func(t *Term, lo, hi int64) *Term { return tt.and(tt.ile(c(lo), t), tt.ile(t, c(hi))) }
	num := func(t *Term) value {
		if t.isConst {
			return t.i.Int64()
		}
		return t
	}
	cont := func(k int) *Term { return tt.isub(b(k), c(0x80)) }
	b0 := b(0)
	if m.branch(tt.ilt(b0, c(0x80))) {
		return num(b0), 1
	}
	if len(bs) > 1 && m.branch(tt.and(within(b0, 0xC2, 0xDF), within(b(1), 0x80, 0xBF))) {
		return num(tt.iadd(tt.imul(c(64), tt.isub(b0, c(0xC0))), cont(1))), 2
	}
	if len(bs) > 2 {
		second := tt.or(
			tt.and(tt.eq(b0, c(0xE0)), within(b(1), 0xA0, 0xBF)),
			tt.and(tt.eq(b0, c(0xED)), within(b(1), 0x80, 0x9F)),
			tt.and(within(b0, 0xE1, 0xEF), tt.not(tt.eq(b0, c(0xED))), within(b(1), 0x80, 0xBF)))
		if m.branch(tt.and(second, within(b(2), 0x80, 0xBF))) {
			return num(tt.iadd(tt.iadd(tt.imul(c(4096), tt.isub(b0, c(0xE0))), tt.imul(c(64), cont(1))), cont(2))), 3
		}
	}
	if len(bs) > 3 {
		second := tt.or(
			tt.and(tt.eq(b0, c(0xF0)), within(b(1), 0x90, 0xBF)),
			tt.and(tt.eq(b0, c(0xF4)), within(b(1), 0x80, 0x8F)),
			tt.and(within(b0, 0xF1, 0xF3), within(b(1), 0x80, 0xBF)))
		if m.branch(tt.and(second, within(b(2), 0x80, 0xBF), within(b(3), 0x80, 0xBF))) {
			return num(tt.iadd(tt.iadd(tt.imul(c(262144), tt.isub(b0, c(0xF0))), tt.imul(c(4096), cont(1))), tt.iadd(tt.imul(c(64), cont(2)), cont(3)))), 4
		}
	}
	return int64(0xFFFD), 1
}

// ---------------------------------------------------------------- builtins

func (m *Machine) callBuiltin(fr *frame, b *ssa.Builtin, args []value, cc *ssa.CallCommon) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		switch y := args[1].(type) {
		case string, *SymStr:
			x := args[0]
			if sb, ok := x.(*symBytes); ok {
				return &symBytes{concat(sb.s, y)}
			}
			if isPlainBytes(y) {
				return m.appendSlice(x.([]value), m.bytesOf(y))
			}
			return &symBytes{concat(m.fromBytes(x.([]value)), y)}
		case *symBytes:
			if sb, ok := args[0].(*symBytes); ok {
				return &symBytes{concat(sb.s, y.s)}
			}
			x, _ := args[0].([]value)
			if len(x) == 0 {
				return y
			}
			return &symBytes{concat(m.fromBytes(x), y.s)}
		case []value:
			if sb, ok := args[0].(*symBytes); ok {
				return &symBytes{concat(sb.s, m.fromBytes(y))}
			}
			x, _ := args[0].([]value)
			return m.appendSlice(x, y)
		case nil:
			return args[0]
		}
		panic(m.unsupported("append %T", args[1]))
	case "copy":
		dst, _ := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = m.bytesOf(y)
		case *symBytes:
			src = m.bytesOf(y.s)
		case []value:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.storeCell(&dst[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return m.strLen(x)
		case []value:
			return int64(len(x))
		case *symBytes:
			return m.strLen(x.s)
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *mapObj:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case nil, *nativeObj:
			return int64(0)
		}
		panic(m.unsupported("len %T", args[0]))
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *symBytes:
			return m.strLen(x.s)
		}
		return int64(0)
	case "delete":
		mo, _ := args[0].(*mapObj)
		if mo != nil {
			m.mapDelete(mo, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapObj:
			for _, e := range x.live() {
				m.mapDelete(x, e.key)
			}
		case []value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				m.storeCell(&x[i], zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		if fr == nil {
			return iface{}
		}
		// the frame that called recover is the deferred function; its caller panics
		c := fr.caller
		if c != nil && c.panicking {
			c.panicking = false
			tp := c.panicV.(targetPanic)
			if tp.v == nil {
				return m.mkRuntimeError(tp.msg)
			}
			return tp.v
		}
		return iface{}
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			var less value
			if b.Name() == "min" {
				less = m.binop(token.LSS, cc.Args[0].Type(), a, acc)
			} else {
				less = m.binop(token.LSS, cc.Args[0].Type(), acc, a)
			}
			switch l := less.(type) {
			case bool:
				if l {
					acc = a
				}
			case *Term:
				acc = m.normNum(m.tt.ite(l, m.term(a), m.term(acc)), cc.Args[0].Type())
			}
		}
		return acc
	case "ssa:wrapnilchk":
		p, _ := args[0].(*value)
		if p == nil {
			panic(m.rtError("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "close":
		return nil
	case "SliceData", "StringData", "String", "Slice":
		return m.unsafeBuiltin(b.Name(), args)
	}
	panic(m.unsupported("builtin %s", b.Name()))
}

type rawPtr struct{ v value }

func (m *Machine) unsafeBuiltin(name string, args []value) value {
	switch name {
	case "SliceData", "StringData":
		return &rawPtr{args[0]}
	case "String":
		if rp, ok := args[0].(*rawPtr); ok {
			s := m.strOfBytes(rp.v)
			n := args[1]
			return m.strSlice(s, nil, n)
		}
		if p, ok := args[0].(*value); ok && p == nil {
			return ""
		}
	case "Slice":
		if rp, ok := args[0].(*rawPtr); ok {
			switch rp.v.(type) {
			case string, *SymStr:
				return m.toByteSlice(rp.v)
			}
			return rp.v
		}
	}
	panic(m.unsupported("unsafe.%s", name))
}

func (m *Machine) mkRuntimeError(msg string) value {
	return m.mkError(msg)
}

func (m *Machine) appendSlice(x, y []value) []value {
	if len(y) == 0 {
		return x
	}
	n := len(x)
	if cap(x) >= n+len(y) {
		full := x[:n+len(y)]
		tmp := make([]value, len(y))
		for i := range y {
			tmp[i] = copyVal(y[i])
		}
		for i := range tmp {
			m.setCell(&full[n+i], tmp[i])
		}
		return full
	}
	c := 2 * n
	if n+len(y) > c {
		c = n + len(y)
	}
	out := make([]value, n+len(y), c)
	for i := range x {
		out[i] = copyVal(x[i])
	}
	for i := range y {
		out[n+i] = copyVal(y[i])
	}
	return out
}

func (m *Machine) panicText(tp targetPanic) string {
	if tp.v == nil {
		return tp.msg
	}
	if it, ok := tp.v.(iface); ok {
		if it.t == nil {
			return "nil"
		}
		switch v := it.v.(type) {
		case string:
			return v
		case *value:
			if st, ok := (*v).(structure); ok && len(st) > 0 {
				if s, ok := st[0].(string); ok {
					return s
				}
			}
		}
		return fmt.Sprintf("%s value", it.t)
	}
	return "panic"
}

var _ = math.Inf
