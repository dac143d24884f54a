package zzverif

import (
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// tree lists the files (each one a schema for its own path) and the symbolic
// links of the directory tree the references lead through.  The working
// directory is /w.
var treeFiles = []string{"/w/f", "/w/..f", "/w/d/f", "/w/d/e/f", "/w/dd/f", "/o/f", "/o/d/f", "/ww/f", "/f", "/w/t", "/w/d/t", "/o/t"}
var treeLinks = map[string]string{
	"/w/l":    "/o",
	"/w/d/l":  "../dd",
	"/w/d/k":  "/o/f",
	"/o/b":    "/w/d",
	"/w/d/up": "..",
}

func plant() {
	FSCwd("/w")
	for _, f := range treeFiles {
		FSFile(f, `{"const":"own `+f+`"}`)
	}
	for _, l := range []string{"/w/l", "/w/d/l", "/w/d/k", "/o/b", "/w/d/up"} {
		FSLink(l, treeLinks[l])
	}
}

func known(p string, list []string) bool {
	for _, f := range list {
		if f == p {
			return true
		}
	}
	return false
}

func isDir(p string) bool {
	if p == "/" {
		return true
	}
	for _, f := range treeFiles {
		if strings.HasPrefix(f, p+"/") {
			return true
		}
	}
	return false
}

// where follows the path the way the operating system does after parent
// segments have been removed from the text; "" when there is nothing.
func where(path string, depth int) string {
	at := ""
	for _, c := range strings.Split(path, "/") {
		switch c {
		case "", ".":
			continue
		case "..":
			if i := strings.LastIndex(at, "/"); i >= 0 {
				at = at[:i]
			}
			continue
		}
		next := at + "/" + c
		if to, ok := treeLinks[next]; ok {
			if depth > 8 {
				return ""
			}
			if strings.HasPrefix(to, "/") {
				at = where(to, depth+1)
			} else {
				at = where(at+"/"+to, depth+1)
			}
			continue
		}
		if !isDir(next) && !known(next, treeFiles) {
			return ""
		}
		at = next
	}
	if at == "" {
		return "/"
	}
	return at
}

// lexical removes "." and ".." segments from an absolute path.
func lexical(path string) string {
	var out []string
	for _, c := range strings.Split(path, "/") {
		switch {
		case c == "" || c == ".":
		case c == "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}

func below(dir, path string) bool {
	return dir == "/" || path == dir || strings.HasPrefix(path, dir+"/")
}

// allowances are the lists of allowed paths together with the directories they stand for.
var allowances = []struct{ given, real []string }{
	{nil, nil},
	{[]string{"d"}, []string{"/w/d"}},
	{[]string{"/o"}, []string{"/o"}},
	{[]string{"d/e", "d/l"}, []string{"/w/d/e", "/w/dd"}},
	{[]string{"."}, []string{"/w"}},
	{[]string{"/"}, []string{"/"}},
	{[]string{"d/../l/d", "/w/f"}, []string{"/o/d", "/w/f"}},
}

type access struct {
	outside bool
	real    []string
}

func (a access) permits(path string) bool {
	if !a.outside && !below("/w", path) {
		return false
	}
	for _, d := range a.real {
		if below(d, path) {
			return true
		}
	}
	return len(a.real) == 0
}

func someAccess(lists int) (*chaff.ParserOptions, access) {
	p := &chaff.ParserOptions{}
	fs := &p.DocumentFetchOptions.FileSystemFetchOptions
	fs.Enabled = true
	fs.AllowOutsideCwd = SymBool("outside allowed")
	allowed := allowances[Choice("allowed paths", lists)]
	for _, d := range allowed.given {
		if strings.HasPrefix(d, "/") {
			d = FSPath(d)
		}
		fs.AllowedPaths = append(fs.AllowedPaths, d)
	}
	return p, access{fs.AllowOutsideCwd, allowed.real}
}

// checkReads compares what was read, and what came of it, with what is permitted.
func checkReads(a access, base, written, target string, s M, p *chaff.ParserOptions, passing ...string) {
	permitted := target != "" && known(target, treeFiles) && a.permits(target)
	before := len(Accesses())
	doc := JSON(s)
	g, err := chaff.ParseSchema(doc, p)
	v := any(nil)
	if err == nil {
		v = find(g.Generate(opts()))
	}
	for _, x := range Accesses()[before:] {
		f := strings.TrimPrefix(x, "read ")
		Check("only-permitted", f != x && a.permits(where(f, 0)), "a file outside of the permitted directories is read")
		Check("only-named", f == target || known(f, passing), "a file no reference leads to is read")
	}
	t, isText := v.(string)
	if permitted {
		Check("permitted-accepted", clean(g, err), "a reference to a permitted file is rejected")
		Check("permitted-target", isText && t == "own "+target, "a reference to a permitted file leads elsewhere")
	} else {
		Check("rejected", !clean(g, err), "a reference to a file that is not permitted is accepted")
	}
}

// find returns the first text in the value.
func find(v any) any {
	switch v := v.(type) {
	case []any:
		if len(v) > 0 {
			return find(v[0])
		}
	case map[string]any:
		for _, x := range v {
			return find(x)
		}
	}
	return v
}

func placeFileRef(kind int, ref string) M {
	r := M{"$ref": ref}
	switch kind {
	case 0:
		return r
	case 1:
		return M{"type": "object", "properties": M{"a": r}, "required": L{"a"}, "additionalProperties": false}
	case 2:
		return M{"allOf": L{r, M{"type": "string"}}}
	case 3:
		return M{"type": "array", "items": r, "minItems": 1, "maxItems": 1}
	case 4:
		return M{"oneOf": L{r}}
	case 5:
		return M{"$ref": "#/$defs/x", "$defs": M{"x": r}}
	}
	return M{"allOf": L{M{"allOf": L{r}}, M{"$ref": "#/$defs/x"}}, "$defs": M{"x": M{"type": "string"}}}
}

// H_P21_segments: references made of directory names, links and parent segments.
func H_P21_segments() {
	plant()
	p, a := someAccess(size(4, len(allowances)))
	names := []string{"f", "d", "..", "l", "e", "up", "k", "."}
	n := 1 + Choice("segments", size(3, 4))
	segs := []string{}
	for i := 0; i < n; i++ {
		segs = append(segs, names[Choice("segment", len(names))])
	}
	ref := strings.Join(segs, "/")
	checkReads(a, "/w", ref, where(lexical("/w/"+ref), 0), M{"$ref": ref}, p)
}

// H_P21_absolute: absolute references, with and without a scheme, at every place.
func H_P21_absolute() {
	plant()
	p, a := someAccess(len(allowances))
	paths := []string{"/w/f", "/w/..f", "/w/d/f", "/w/d/e/f", "/w/dd/f", "/o/f", "/o/d/f", "/ww/f", "/f", "/w/l/f", "/w/d/l/f", "/w/d/k", "/o/b/f", "/o/b/up/f", "/w/../o/f", "/w/d/../../ww/f", "/o/../w/f", "//w//d/f", "/w/./d/./f", "/w/missing", "/w", "/w/d"}
	path := paths[Choice("path", len(paths))]
	ref := FSPath(path)
	if Bool("with scheme?") {
		ref = "file://" + ref
	}
	checkReads(a, "/w", ref, where(lexical(path), 0), placeFileRef(Choice("place", size(3, 7)), ref), p)
}

// H_P21_transitive: references inside of files that were read for a reference.
func H_P21_transitive() {
	plant()
	p, a := someAccess(len(allowances))
	starts := []string{"/w/d/t", "/w/t", "/o/t"}
	start := starts[Choice("start", len(starts))]
	refs := []string{"f", "../f", "../../f", "../o/f", "../../o/f", "e/f", "l/f", "d/f", "../d/f", "dd/f", "../ww/f"}
	ref := refs[Choice("reference", len(refs))]
	outer, inner := Choice("outer place", size(2, 3))*2, Choice("inner place", 3)
	if outer == 2 && inner == 1 {
		return
	}
	FSFile(start, string(JSON(placeFileRef(inner, ref))))
	base := start[:strings.LastIndex(start, "/")]
	target := where(lexical(base+"/"+ref), 0)
	first := FSPath(start)
	s := placeFileRef(outer, first)
	if !a.permits(start) {
		target = ""
	}
	checkReads(a, base, ref, target, s, p, start)
}

// H_P21_base: references relative to a base that was set, and to a document that names itself.
func H_P21_base() {
	plant()
	p, a := someAccess(len(allowances))
	base := "/w"
	switch Choice("base", 6) {
	case 0:
		p.RelativeTo, base = "file://"+FSPath("/w/d/root.json"), "/w/d"
	case 1:
		p.RelativeTo, base = "file://"+FSPath("/o/"), "/o"
	case 2:
		p.RelativeTo, base = "file://"+FSPath("/w/d/root.json"), "/w/d"
	case 3:
		p.RelativeTo, base = "file://"+FSPath("/w/l/root.json"), "/o"
	case 4:
		p.RelativeTo, base = FSPath("/w/d/root.json"), "/w/d"
		return
	}
	refs := []string{"f", "../f", "../../f", "e/f", "d/f", "../w/f", "../o/f", "../d/../f", "b/f"}
	ref := refs[Choice("reference", len(refs))]
	lex := base
	if p.RelativeTo != "" && strings.Contains(p.RelativeTo, "/w/l/") {
		lex = "/w/l"
	}
	checkReads(a, base, ref, where(lexical(lex+"/"+ref), 0), placeFileRef(Choice("place", 3), ref), p)
}

// H_P21_identifiers: identifiers do not move references out of the permitted directories.
func H_P21_identifiers() {
	plant()
	p, a := someAccess(len(allowances))
	ids := []string{"/o/x.json", "file:///o/x.json", "../o/x.json", "d/x.json", "https://h/x.json"}
	id := ids[Choice("identifier", len(ids))]
	refs := []string{"f", "../f", "../o/f", "d/f", "../../o/f"}
	ref := refs[Choice("reference", len(refs))]
	s := M{"$id": id, "$ref": ref}
	if Bool("nested?") {
		s = M{"allOf": L{M{"$id": id, "allOf": L{M{"$ref": ref}}}}}
	}
	before := len(Accesses())
	chaff.ParseSchema(JSON(s), p)
	for _, x := range Accesses()[before:] {
		f := strings.TrimPrefix(x, "read ")
		Check("only-permitted", f != x && a.permits(where(f, 0)), "a file outside of the permitted directories is read")
	}
}

// H_P21_text: references of any characters that matter to paths.
func H_P21_text() {
	plant()
	p, a := someAccess(3)
	ref := Text("reference", size(4, 6), "./ofw")
	scheme := ""
	if Bool("with scheme?") {
		scheme = "file://"
	}
	doc := append(append([]byte(`{"$ref":"`+scheme), ref...), `"}`...)
	before := len(Accesses())
	g, err := chaff.ParseSchema(doc, p)
	v := any(nil)
	if err == nil {
		v = g.Generate(opts())
	}
	for _, x := range Accesses()[before:] {
		f := strings.TrimPrefix(x, "read ")
		Check("only-permitted", f != x && a.permits(where(f, 0)), "a file outside of the permitted directories is read")
	}
	if t, ok := v.(string); ok && strings.HasPrefix(t, "own ") {
		Check("not-disclosed", a.permits(t[4:]), "the contents of a file that is not permitted show up")
	}
}
