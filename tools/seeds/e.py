import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import gen

CLIHOSTS = '''package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
)

func main() {
	hits := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		hits++
		fmt.Fprint(w, "{\\"const\\":1}")
	}))
	defer s.Close()
	host := strings.TrimPrefix(s.URL, "http://")
	for _, hosts := range []string{host, "a.test," + host, "a.test,b.test,c.test," + host, "a.test,b.test," + host + ",c.test"} {
		hits = 0
		c := exec.Command("go", "run", "./cli", "-allow-insecure", "-allowed-hosts", hosts)
		c.Stdin = strings.NewReader(fmt.Sprintf("{\\"$ref\\":\\"%s/x.json\\"}", s.URL))
		out, err := c.CombinedOutput()
		if err != nil || hits == 0 || strings.TrimSpace(string(out)) != "1" {
			fmt.Println(hosts, "gives", string(out), err)
			os.Exit(1)
		}
	}
}
'''
HOSTPORT = '''package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	hits := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		hits++
		fmt.Fprint(w, "{\\"const\\":1}")
	}))
	defer s.Close()
	for _, allowed := range []string{s.URL, strings.TrimPrefix(s.URL, "http://")} {
		hits = 0
		g, err := chaff.ParseSchemaString(fmt.Sprintf("{\\"$ref\\":%q}", s.URL+"/x.json"), &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true, AllowedHosts: []string{allowed}}}})
		if err != nil || g.Metadata.Errors.HasErrors() || hits == 0 {
			fmt.Println("a permitted host is not reached:", allowed, err)
			os.Exit(1)
		}
	}
}
'''
REPORTED = '''package main

import (
	"fmt"
	"os"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	for depth := 1; depth < 20; depth++ {
		s := strings.Repeat(`{"type":"object","properties":{"a":`, depth) + `{"type":"integer","minimum":2,"maximum":1}` + strings.Repeat("}}", depth)
		g, err := chaff.ParseSchemaString(s, &chaff.ParserOptions{})
		if err == nil && !g.Metadata.Errors.HasErrors() {
			fmt.Println("not reported at depth", depth)
			os.Exit(1)
		}
	}
}
'''
ACCEPTED = '''package main

import (
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	for _, s := range []string{`{"type":"number","multipleOf":25,"minimum":1}`, `{"type":"integer","multipleOf":40,"maximum":-3}`, `{"type":"number","multipleOf":25,"exclusiveMinimum":25}`, `{"type":"number","multipleOf":2,"minimum":1}`} {
		g, err := chaff.ParseSchemaString(s, &chaff.ParserOptions{})
		if err != nil || g.Metadata.Errors.HasErrors() {
			fmt.Println("rejected:", s, err)
			os.Exit(1)
		}
	}
}
'''
DEPTH = '''package main

import (
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
)

func depth(v any) int {
	if m, ok := v.(map[string]any); ok {
		return depth(m["n"]) + 1
	}
	return 0
}

func main() {
	g, err := chaff.ParseSchemaString(`{"$ref":"#/$defs/d","$defs":{"d":{"type":"object","properties":{"n":{"$ref":"#/$defs/d"}},"required":["n"],"additionalProperties":false}}}`, &chaff.ParserOptions{})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for most := 1; most < 40; most++ {
		if n := depth(g.Generate(&chaff.GeneratorOptions{BypassCyclicReferenceCheck: true, MaximumReferenceDepth: most})); n < most {
			fmt.Println("only", n, "nested objects with a maximum depth of", most)
			os.Exit(1)
		}
	}
}
'''
SEEDS = [
 dict(id="p03-window-ignores-step", property="P03", needs="a single bound next to a multipleOf larger than ten whose multiples lie further away than that",
  breaks="the open end of a range is placed ten away whatever multipleOf is",
  edits=[("number.go", "	offset := util.GetFloat(util.GetZeroIfNil(node.MultipleOf, 0)*100, defaultOffset)\n", "	offset := float64(defaultOffset)\n	if node.MultipleOf != nil && *node.MultipleOf < 1 {\n		offset = util.GetFloat(*node.MultipleOf*100, defaultOffset)\n	}\n")],
  main=ACCEPTED),
 dict(id="p14-exclusive-maximum", property="P14", needs="two branches with different exclusiveMaximum limits",
  breaks="the larger exclusiveMaximum of two branches is used",
  edits=[("merge.go", "baseNode.ExclusiveMaximum = util.MinFloatPtr(otherNode.ExclusiveMaximum, baseNode.ExclusiveMaximum)", "baseNode.ExclusiveMaximum = util.MaxFloatPtr(otherNode.ExclusiveMaximum, baseNode.ExclusiveMaximum)")],
  main=gen('{"type":"integer","minimum":0,"allOf":[{"exclusiveMaximum":3},{"exclusiveMaximum":9}]}', 'return v.(float64) < 3', 500)),
 dict(id="p18-null-keeps-reference", property="P18", needs="a reference used again after its expansion gave null",
  breaks="an expansion that gives null counts as going on",
  edits=[("reference.go", "	defer refResolver.PopRefResolution()\n\n	return reference.Generator.Generate(opts)", "	value := reference.Generator.Generate(opts)\n	if value != nil {\n		refResolver.PopRefResolution()\n	}\n	return value")],
  main=gen('{"type":"array","prefixItems":[{"$ref":"#/$defs/d"},{"$ref":"#/$defs/d"}],"items":false,"$defs":{"d":{"type":"null"}}}', 'for _, x := range v.([]any) { if x != nil { return false } }; return true', 20)),
 dict(id="p20-depth-capped", property="P20", needs="a maximum reference depth above the default",
  breaks="a maximum reference depth above ten is taken for ten",
  edits=[("generator.go", "util.GetInt(options.MaximumReferenceDepth, 10)", "util.GetInt(util.MinInt(options.MaximumReferenceDepth, 10), 10)")],
  main=DEPTH),
 dict(id="p22-hostname", property="P22", needs="a permitted host that is written as a URL with a port",
  breaks="the port of a permitted host that is written as a URL is dropped",
  edits=[("fetchers.go", "allowedHosts = append(allowedHosts, parsedUrl.Host)", "allowedHosts = append(allowedHosts, parsedUrl.Hostname())")],
  main=HOSTPORT),
 dict(id="p26-deep-errors", property="P26", needs="a contradiction nested in six objects or more",
  breaks="contradictions are no longer recorded from a depth of seven on",
  edits=[("parse.go", "	if err != nil {\n		metadata.Errors.AddError(err)\n	}\n\n	if gen == nil {", "	if err != nil && metadata.ParseDepth < 7 {\n		metadata.Errors.AddError(err)\n	}\n\n	if gen == nil {")],
  main=REPORTED),
 dict(id="p29-offset-hour", property="P29", needs="a text with an offset of twenty-four hours",
  breaks="an offset of twenty-four hours makes a well-formed time",
  edits=[("internal/jsonschema/formats.go", "isInRange(str[1:3], 0, 23)", "isInRange(str[1:3], 0, 24)")],
  main=gen('{"enum":["12:00:00+24:00",1],"not":{"format":"time"}}', 'return v != 1.0', 0) if False else '''package main

import (
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

func main() {
	// A text that is no well-formed time may be generated, one that is may not
	g, err := chaff.ParseSchemaString(`{"type":"string","enum":["12:00:00+24:00","12:00:00+23:00"],"not":{"format":"time"}}`, &chaff.ParserOptions{})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	seen := map[any]bool{}
	for i := 0; i < 200; i++ {
		seen[g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))})] = true
	}
	if !seen["12:00:00+24:00"] || seen["12:00:00+23:00"] {
		fmt.Println("generated:", seen)
		os.Exit(1)
	}
}
'''),
 dict(id="p31-three-entries", property="P31", needs="a list of four permitted hosts or more",
  breaks="from the third one on the entries of a list are taken for one",
  edits=[("cli/cli.go", 'strings.Split(*input, ",")', 'strings.SplitN(*input, ",", 3)')],
  main=CLIHOSTS),
 dict(id="p32-unique-unevaluated", property="P32", needs="uniqueItems next to unevaluatedItems",
  breaks="unique items that nothing accounts for are texts whatever unevaluatedItems says",
  edits=[("array.go", "	} else if g.UnevaluatedItemsGenerator != nil {", "	} else if g.UnevaluatedItemsGenerator != nil && !g.UniqueItems {")],
  main=gen('{"type":"array","unevaluatedItems":{"type":"integer","minimum":0,"maximum":90},"uniqueItems":true,"minItems":2,"maxItems":4}', 'for _, x := range v.([]any) { if _, ok := x.(float64); !ok { return false } }; return true', 100)),
]
