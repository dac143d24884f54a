package main

import (
	"go/types"
	"net/url"
	"path/filepath"
	"strings"
)

// externState stands in for everything outside the process: files, symbolic
// links, the network, standard streams.  It records every access.
type externState struct {
	cwd     string
	files   map[string]value // path -> content
	links   map[string]string
	https   map[string]*httpResp
	log     []access
	stdout  []value
	written map[string]value
	stdin   value
	piped   bool
	exited  bool
	code    int64
}
type httpResp struct {
	redirect string
	status   value
	body     value
}
type access struct {
	kind string // read | http
	what value
}

func (m *Machine) ext() *externState {
	if m.extern == nil {
		m.extern = &externState{cwd: "/zzroot", files: map[string]value{}, links: map[string]string{}, https: map[string]*httpResp{},
			written: map[string]value{}, stdin: ""}
	}
	return m.extern
}

func (e *externState) out(m *Machine, s value) { e.stdout = append(e.stdout, s) }

func (e *externState) fileWrite(m *Machine, f value, s value) {
	name := "?"
	if p, ok := f.(*value); ok && p != nil {
		if o, ok := (*p).(*nativeObj); ok && o != nil {
			name = o.v.(string)
		}
	}
	if name == "stdout" {
		e.out(m, s)
		return
	}
	if name == "stderr" {
		return
	}
	if cur, ok := e.written[name]; ok {
		s = concat(cur, s)
	}
	e.written[name] = s
}

func (m *Machine) osErr(name string) value {
	g := m.P.pkgs["io/fs"].Var(name)
	return copyVal(*m.global(g))
}

// pathErr builds *fs.PathError{op, path, err}
func (m *Machine) pathErr(op string, path value, errName string) value {
	t := m.P.pkgs["io/fs"].Pkg.Scope().Lookup("PathError").Type()
	return iface{t: types.NewPointer(t), v: cell(structure{op, path, m.osErr(errName)})}
}

// resolve follows symbolic links of the virtual file system.
func (e *externState) resolve(p string) (string, bool) {
	if !filepath.IsAbs(p) {
		p = filepath.Join(e.cwd, p)
	}
	parts := strings.Split(strings.Trim(p, "/"), "/")
	cur := "/"
	hops := 0
	for i := 0; i < len(parts); i++ {
		c := parts[i]
		switch c {
		case "", ".":
			continue
		case "..":
			cur = filepath.Dir(cur)
			continue
		}
		next := filepath.Join(cur, c)
		if to, ok := e.links[next]; ok {
			hops++
			if hops > 40 {
				return "", false
			}
			rest := parts[i+1:]
			if !filepath.IsAbs(to) {
				to = cur + "/" + to
			}
			parts = append(strings.Split(strings.Trim(to, "/"), "/"), rest...)
			cur, i = "/", -1
			continue
		}
		if !e.exists(next) {
			return "", false
		}
		cur = next
	}
	return cur, true
}

// target is the file that writing to p writes to.
func (e *externState) target(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(e.cwd, p)
	}
	if r, ok := e.resolve(p); ok {
		return r
	}
	if to, ok := e.links[p]; ok {
		if !filepath.IsAbs(to) {
			to = filepath.Join(filepath.Dir(p), to)
		}
		return filepath.Clean(to)
	}
	return filepath.Clean(p)
}

func (e *externState) exists(p string) bool {
	if p == "/" || p == e.cwd || strings.HasPrefix(e.cwd, p+"/") {
		return true
	}
	if _, ok := e.files[p]; ok {
		return true
	}
	if _, ok := e.links[p]; ok {
		return true
	}
	for f := range e.files {
		if strings.HasPrefix(f, p+"/") {
			return true
		}
	}
	for f := range e.links {
		if strings.HasPrefix(f, p+"/") {
			return true
		}
	}
	return false
}

func addExternal(N map[string]nativeImpl) {
	n := func(name string, f func(m *Machine, a []value) value) { N[name] = nat(f) }
	conc := func(m *Machine, v value) string {
		s, ok := m.flatString(v)
		if !ok {
			panic(m.unsupported("symbolic path"))
		}
		return s
	}
	n("os.Getwd", func(m *Machine, a []value) value { return tuple{m.ext().cwd, iface{}} })
	n("path/filepath.Abs", func(m *Machine, a []value) value {
		p := conc(m, a[0])
		if filepath.IsAbs(p) {
			return tuple{filepath.Clean(p), iface{}}
		}
		return tuple{filepath.Join(m.ext().cwd, p), iface{}}
	})
	n("path/filepath.EvalSymlinks", func(m *Machine, a []value) value {
		p := conc(m, a[0])
		r, ok := m.ext().resolve(p)
		if !ok {
			return tuple{"", m.pathErr("lstat", p, "ErrNotExist")}
		}
		if !filepath.IsAbs(p) {
			if rel, err := filepath.Rel(m.ext().cwd, r); err == nil {
				r = rel
			}
		}
		return tuple{r, iface{}}
	})
	readFile := func(m *Machine, name value) (value, value) { return m.readVirtual(conc(m, name)) }
	n("os.ReadFile", func(m *Machine, a []value) value {
		c, err := readFile(m, a[0])
		if c == nil {
			return tuple{[]value(nil), err}
		}
		return tuple{m.toByteSlice(c), err}
	})
	for _, f := range []string{"os.Open", "os.OpenFile"} {
		n(f, func(m *Machine, a []value) value {
			c, err := readFile(m, a[0])
			if c == nil {
				return tuple{(*value)(nil), err}
			}
			return tuple{cell(&nativeObj{"file", "in:" + conc(m, a[0])}), iface{}}
		})
	}
	n("os.ReadDir", func(m *Machine, a []value) value {
		m.ext().log = append(m.ext().log, access{"read", conc(m, a[0])})
		return tuple{[]value(nil), m.pathErr("open", a[0], "ErrNotExist")}
	})
	stat := func(m *Machine, a []value) value {
		p := conc(m, a[0])
		e := m.ext()
		if _, ok := e.written[e.target(p)]; ok {
			return tuple{m.fileInfo(0), iface{}}
		}
		if r, ok := e.resolve(p); ok && e.exists(r) {
			return tuple{m.fileInfo(0), iface{}}
		}
		return tuple{iface{}, m.pathErr("stat", p, "ErrNotExist")}
	}
	n("os.Stat", stat)
	n("os.Lstat", stat)
	n("os.Create", func(m *Machine, a []value) value {
		p := m.ext().target(conc(m, a[0]))
		m.ext().written[p] = ""
		m.ext().log = append(m.ext().log, access{"create", p})
		return tuple{cell(&nativeObj{"file", p}), iface{}}
	})
	n("os.WriteFile", func(m *Machine, a []value) value {
		p := m.ext().target(conc(m, a[0]))
		m.ext().log = append(m.ext().log, access{"create", p})
		m.ext().written[p] = m.strOfBytes(a[1])
		return iface{}
	})
	n("(*os.File).Write", func(m *Machine, a []value) value {
		s := m.strOfBytes(a[1])
		m.ext().fileWrite(m, a[0], s)
		return tuple{m.strLen(s), iface{}}
	})
	n("(*os.File).WriteString", func(m *Machine, a []value) value {
		m.ext().fileWrite(m, a[0], a[1])
		return tuple{m.strLen(a[1]), iface{}}
	})
	n("(*os.File).Close", func(m *Machine, a []value) value { return iface{} })
	n("(*os.File).Stat", func(m *Machine, a []value) value {
		mode := uint64(0)
		if !m.ext().piped {
			mode = 1 << 21 // ModeCharDevice
		}
		return tuple{m.fileInfo(mode), iface{}}
	})
	// the list of flags goes to the error output
	n("(*flag.FlagSet).PrintDefaults", func(m *Machine, a []value) value { return nil })
	n("flag.PrintDefaults", func(m *Machine, a []value) value { return nil })
	n("os.Exit", func(m *Machine, a []value) value {
		m.ext().exited = true
		m.ext().code = m.concInt(a[0])
		panic(pathEnd{"exit", ""})
	})
	N["io.ReadAll"] = func(m *Machine, c *callCtx) (value, bool) {
		it, _ := c.args[0].(iface)
		if p, ok := it.v.(*value); ok && p != nil {
			if o, ok := (*p).(*nativeObj); ok && o != nil {
				switch o.kind {
				case "body":
					return tuple{m.toByteSlice(o.v), iface{}}, true
				case "file":
					nm := o.v.(string)
					if strings.HasPrefix(nm, "in:") {
						r, _ := m.ext().resolve(nm[3:])
						return tuple{m.toByteSlice(m.ext().files[r]), iface{}}, true
					}
					return tuple{m.toByteSlice(m.ext().stdin), iface{}}, true
				}
			}
		}
		return nil, false
	}

	// ---- HTTP
	n("net/http.Get", func(m *Machine, a []value) value { return m.httpGet(a[0], nil) })
	n("(*net/http.Client).Get", func(m *Machine, a []value) value { return m.httpGet(a[1], a[0]) })
	n("(*net/http.Client).Do", func(m *Machine, a []value) value {
		req := a[1].(*value)
		st := (*req).(structure)
		u := st[m.fieldIdx("net/http", "Request", "URL")]
		s := m.call(nil, m.methodByName(types.NewPointer(m.P.pkgs["net/url"].Pkg.Scope().Lookup("URL").Type()), "String"), []value{u})
		return m.httpGet(s, a[0])
	})
}

// readVirtual reads a file of the virtual file system.
func (m *Machine) readVirtual(p string) (value, value) {
	e := m.ext()
	r, ok := e.resolve(p)
	// only what exists can be seen being read on the real code
	if c, exists := e.files[r]; ok && exists {
		e.log = append(e.log, access{"read", r})
		return c, iface{}
	}
	return nil, m.pathErr("open", p, "ErrNotExist")
}

func (m *Machine) fieldIdx(pkg, typ, f string) int {
	st := m.P.pkgs[pkg].Pkg.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return i
		}
	}
	panic(m.unsupported("no field %s.%s.%s", pkg, typ, f))
}

func (m *Machine) fileInfo(mode uint64) value {
	t := m.P.pkgs["os"].Pkg.Scope().Lookup("fileStat").Type()
	st := zero(t).(structure)
	st[m.fieldIdx("os", "fileStat", "mode")] = mode
	return iface{t: types.NewPointer(t), v: cell(st)}
}

func (m *Machine) parseURL(s string) value {
	f := m.P.pkgs["net/url"].Func("Parse")
	r := m.call(nil, f, []value{s}).(tuple)
	return r[0]
}

// httpGet performs a request against the virtual network, following
// redirects the way net/http does.
func (m *Machine) httpGet(u value, client value) value {
	e := m.ext()
	cur, ok := m.flatString(u)
	if !ok {
		panic(m.unsupported("symbolic URL"))
	}
	respT := m.P.pkgs["net/http"].Pkg.Scope().Lookup("Response").Type()
	reqT := m.P.pkgs["net/http"].Pkg.Scope().Lookup("Request").Type()
	via := []value{}
	pu, err := url.Parse(cur)
	if err != nil || pu.Scheme != "http" && pu.Scheme != "https" || pu.Host == "" {
		return tuple{(*value)(nil), m.mkError("unsupported protocol scheme")}
	}
	mkReq := func(s string) *value {
		rq := zero(reqT).(structure)
		rq[m.fieldIdx("net/http", "Request", "URL")] = m.parseURL(s)
		rq[m.fieldIdx("net/http", "Request", "Method")] = "GET"
		rq[m.fieldIdx("net/http", "Request", "Host")] = ""
		return cell(rq)
	}
	reqV := mkReq(cur)
	for hop := 0; ; hop++ {
		if cu, err := url.Parse(cur); err != nil || cu.Scheme != "http" && cu.Scheme != "https" || cu.Host == "" {
			return tuple{(*value)(nil), m.mkError("unsupported protocol scheme")}
		}
		e.log = append(e.log, access{"http", cur})
		r := e.https[cur]
		if r == nil {
			return tuple{(*value)(nil), m.mkError("Get " + cur + ": connection refused")}
		}
		mk := func() value {
			st := zero(respT).(structure)
			st[m.fieldIdx("net/http", "Response", "StatusCode")] = r.status
			st[m.fieldIdx("net/http", "Response", "Request")] = reqV
			t := types.NewPointer(m.P.pkgs["os"].Pkg.Scope().Lookup("File").Type())
			st[m.fieldIdx("net/http", "Response", "Body")] = iface{t: t, v: cell(&nativeObj{"body", r.body})}
			return cell(st)
		}
		if r.redirect == "" {
			return tuple{mk(), iface{}}
		}
		base, _ := url.Parse(cur)
		nu, err := base.Parse(r.redirect)
		if err != nil {
			return tuple{(*value)(nil), m.mkError("bad redirect")}
		}
		via = append(via, value(reqV))
		reqV = mkReq(nu.String())
		var check value
		if p, ok := client.(*value); ok && p != nil {
			if st, ok := (*p).(structure); ok {
				check = st[m.fieldIdx("net/http", "Client", "CheckRedirect")]
			}
		}
		if !isNilFunc(check) {
			er := m.call(nil, check, []value{reqV, append([]value{}, via...)}).(iface)
			if er.t != nil {
				g := m.P.pkgs["net/http"].Var("ErrUseLastResponse")
				if m.equals(er, copyVal(*m.global(g))) == true {
					return tuple{mk(), iface{}}
				}
				return tuple{mk(), er}
			}
		} else if len(via) >= 10 {
			return tuple{(*value)(nil), m.mkError("stopped after 10 redirects")}
		}
		cur = nu.String()
	}
}
