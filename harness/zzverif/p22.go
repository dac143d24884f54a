package zzverif

import (
	"net/url"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

type hostList struct {
	given []string
	hosts []string
}

var hostLists = []hostList{
	{nil, nil},
	{[]string{"a.test"}, []string{"a.test"}},
	{[]string{"https://a.test"}, []string{"a.test"}},
	{[]string{"c.test", "http://b.test/x"}, []string{"c.test", "b.test"}},
	{[]string{"a.test:8443"}, []string{"a.test:8443"}},
	{[]string{"https://a.test:8443/", "http://b.test:80"}, []string{"a.test:8443", "b.test:80"}},
	{[]string{"127.0.0.1:80", "localhost:8080"}, []string{"127.0.0.1:80", "localhost:8080"}},
}

var servedURLs = []string{
	"https://a.test/f", "https://a.test/d/f", "http://a.test/f", "http://a.test/d/f", "https://b.test/f", "http://b.test/f", "https://b.test/d/f", "http://b.test/d/f",
	"https://a.test:8443/f", "https://c.test/f", "http://127.0.0.1:80/f", "https://a.test.b.test/f", "http://localhost:8080/f", "https://x@a.test/f", "https://a.test@b.test/f",
}

func serve() {
	for _, u := range servedURLs {
		HTTPServe(u, 200, "", `{"const":"own `+u+`"}`)
	}
}

type reach struct {
	insecure bool
	hosts    []string
}

func (r reach) permits(to string) bool {
	u, err := url.Parse(to)
	if err != nil {
		return false
	}
	if u.Scheme != "https" && !(r.insecure && u.Scheme == "http") {
		return false
	}
	return len(r.hosts) == 0 || known(u.Host, r.hosts)
}

func someReach() (*chaff.ParserOptions, reach) {
	p := &chaff.ParserOptions{}
	h := &p.DocumentFetchOptions.HTTPFetchOptions
	h.Enabled = true
	h.AllowInsecure = SymBool("insecure allowed")
	l := hostLists[Choice("allowed hosts", len(hostLists))]
	h.AllowedHosts = append([]string{}, l.given...)
	return p, reach{h.AllowInsecure, l.hosts}
}

// checkRequests compares the requests made, and what came of them, with what is permitted.
func checkRequests(r reach, target string, reachable bool, s M, p *chaff.ParserOptions) {
	before := len(Accesses())
	g, err := chaff.ParseSchema(JSON(s), p)
	v := any(nil)
	if err == nil {
		v = find(g.Generate(opts()))
	}
	for _, x := range Accesses()[before:] {
		u := strings.TrimPrefix(x, "http ")
		Check("only-permitted", u != x && r.permits(u), "a request goes to a host or over a scheme that is not permitted")
	}
	t, isText := v.(string)
	if reachable {
		Check("permitted-accepted", clean(g, err), "a reference to a permitted host is rejected")
		Check("permitted-target", isText && t == "own "+target, "a reference to a permitted host leads elsewhere")
	} else {
		Check("rejected", !clean(g, err), "a reference that leads to no permitted document is accepted")
	}
}

// H_P22_absolute: references that name a host.
func H_P22_absolute() {
	serve()
	p, r := someReach()
	if Bool("base?") {
		p.RelativeTo = "https://a.test/d/root.json"
	}
	refs := append([]string{"https://b.test/missing", "https://a.test/missing", "ftp://a.test/f", "https:/f", "HTTPS://a.test/f", "https://A.test/f", "mailto:a.test"}, servedURLs...)
	ref := refs[Choice("reference", len(refs))]
	target := ref
	if strings.HasPrefix(ref, "HTTPS") {
		target = "https" + ref[5:]
	}
	if ref == "https://A.test/f" || ref == "https:/f" {
		p.RelativeTo = ""
	}
	checkRequests(r, target, known(target, servedURLs) && r.permits(target), placeFileRef(Choice("place", size(3, 7)), ref), p)
}

// H_P22_relative: references relative to the document they are written in.
func H_P22_relative() {
	serve()
	p, r := someReach()
	bases := []string{"https://a.test/d/root.json", "http://a.test/d/root.json", "https://b.test/d/", "https://a.test:8443/root.json", "http://localhost:8080/d/e/root.json"}
	base := bases[Choice("base", len(bases))]
	p.RelativeTo = base
	refs := []string{"f", "../f", "/f", "//b.test/f", "//a.test/d/f", "//a.test@b.test/f", "./f", "../../f", "//c.test/f"}
	ref := refs[Choice("reference", len(refs))]
	b, _ := url.Parse(base)
	u, _ := url.Parse(ref)
	target := b.ResolveReference(u).String()
	s := placeFileRef(Choice("place", size(3, 7)), ref)
	if Bool("through another document?") {
		HTTPServe(base+"x", 200, "", string(JSON(s)))
		if !r.permits(base + "x") {
			target = ""
		}
		s = M{"$ref": base + "x"}
		p.RelativeTo = []string{"https://b.test/", "", "file://" + FSPath("/w/x.json")}[Choice("first base", 3)]
	}
	checkRequests(r, target, known(target, servedURLs) && r.permits(target), s, p)
}

// H_P22_redirects: redirects are held to the same rules.
func H_P22_redirects() {
	serve()
	p, r := someReach()
	from := []string{"https://a.test/r", "http://a.test/r", "https://b.test/r", "https://a.test:8443/r"}[Choice("from", 4)]
	to := []string{"https://a.test/f", "http://a.test/f", "https://b.test/f", "/f", "//c.test/f", "http://127.0.0.1:80/f", "https://a.test/s", "file:///w/f", "https://a.test/missing"}[Choice("to", 9)]
	HTTPServe(from, 302, to, "")
	b, _ := url.Parse(from)
	u, _ := url.Parse(to)
	target := b.ResolveReference(u).String()
	reachable := r.permits(from) && r.permits(target)
	if target == "https://a.test/s" {
		next := []string{"https://b.test/f", "https://a.test/d/f", "http://a.test/d/f", from}[Choice("and on to", 4)]
		HTTPServe(target, 302, next, "")
		target = next
		reachable = reachable && r.permits(next)
	}
	checkRequests(r, target, reachable && known(target, servedURLs), placeFileRef(Choice("place", 3), from), p)
}

// H_P22_status: answers other than the document are errors.
func H_P22_status() {
	p, r := someReach()
	status := Int("status", 200, 599)
	Assume(status < 300 || status >= 400)
	HTTPServe("https://a.test/f", status, "", `{"const":"own https://a.test/f"}`)
	checkRequests(r, "https://a.test/f", status == 200 && r.permits("https://a.test/f"), M{"$ref": "https://a.test/f"}, p)
}

// H_P22_text: references of any characters that matter to URLs.
func H_P22_text() {
	serve()
	p, r := someReach()
	Assume(!r.insecure || Thorough())
	p.RelativeTo = "https://a.test/d/root.json"
	ref := Text("reference", size(2, 3), "/@:bf.")
	head := []string{"", "https://a.test", "//"}[Choice("head", 3)]
	tail := []string{"", "b.test/f"}[Choice("tail", 2)]
	doc := append(append([]byte(`{"$ref":"`+head), ref...), tail+`"}`...)
	before := len(Accesses())
	g, err := chaff.ParseSchema(doc, p)
	if err == nil {
		g.Generate(opts())
	}
	for _, x := range Accesses()[before:] {
		u := strings.TrimPrefix(x, "http ")
		Check("only-permitted", u != x && r.permits(u), "a request goes to a host or over a scheme that is not permitted")
	}
}
