import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import gen

COUNT = '''package main

import (
	"fmt"
	mrand "math/rand"
	"os"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

type counted struct {
	mrand.Source
	n int
}

func (c *counted) Int63() int64 { c.n++; return c.Source.Int63() }

func main() {
	g, err := chaff.ParseSchemaString(`{"type":"array","uniqueItems":true,"prefixItems":[{"const":"a"},{"const":"b"}],"items":{"enum":["a","b"]},"minItems":3,"maxItems":3}`, &chaff.ParserOptions{})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for k := 1; k < 20; k++ {
		src := &counted{Source: mrand.NewSource(int64(k))}
		g.Generate(&chaff.GeneratorOptions{Rand: &rand.RandUtil{Source: src, Rand: mrand.New(src)}, MaximumUniqueGeneratorAttempts: k})
		if src.n > k+1 {
			fmt.Println(src.n, "draws for", k, "attempts")
			os.Exit(1)
		}
	}
}
'''
NOPANIC = '''package main

import (
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic:", r)
			os.Exit(1)
		}
	}()
	for _, s := range []string{`{"type":["integer","null"],"minimum":2,"maximum":1}`, `{"type":["null","string"],"pattern":"("}`, `{"type":["boolean","nothing"]}`} {
		g, err := chaff.ParseSchemaString(s, &chaff.ParserOptions{})
		for i := 0; err == nil && i < 200; i++ {
			g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))})
		}
	}
}
'''
SEEDS = [
 dict(id="p17-else-is-then", property="P17", needs="a reference that points into else",
  breaks="a pointer into else is resolved to the schema of then",
  edits=[("reference_path.go", "resolveSubReferencePath(node.Else,", "resolveSubReferencePath(node.Then,")],
  main=gen('{"allOf":[{"$ref":"#/$defs/j/else"}],"$defs":{"j":{"if":{"type":"null"},"then":{"type":"null"},"else":{"const":7}}}}', 'return v == float64(7)', 20)),
 dict(id="p16-typed-branch", property="P16", needs="a then branch that names its type and properties next to a schema that requires others",
  breaks="a branch with a type of its own is not merged with the schema around it",
  edits=[("if.go", "	mergedNode, err := mergeSchemaNodes(metadata, parentScope, *bodyNode)\n", "	mergedNode, err := mergeSchemaNodes(metadata, parentScope, *bodyNode)\n	if err == nil && bodyNode.Type != nil && bodyNode.Properties != nil {\n		mergedNode = *bodyNode\n	}\n")],
  main=gen('{"type":"object","properties":{"kind":{"enum":["a","b"]},"size":{"type":"integer","minimum":0,"maximum":3}},"required":["kind"],"additionalProperties":false,"if":{"properties":{"kind":{"const":"a"}}},"then":{"type":"object","properties":{"size":{"type":"integer","maximum":0}}}}',
   'm, ok := v.(map[string]any); return !ok || m["kind"] != nil', 2000)),
 dict(id="p10-extra-attempt", property="P10", needs="a unique item that is never found: the attempts have to be counted",
  breaks="one more attempt is made than configured",
  edits=[("array.go", "	for i := 0; i < opts.MaximumUniqueGeneratorAttempts; i++ {", "	for i := 0; i <= opts.MaximumUniqueGeneratorAttempts; i++ {")],
  main=COUNT),
 dict(id="p02-three-decimals", property="P02", needs="a multipleOf with more than three decimals that does not divide a thousandth",
  breaks="multiples are rounded to three decimals",
  edits=[("internal/util/util.go", "prec < 15", "prec < 3")],
  main=gen('{"type":"number","multipleOf":0.0007,"minimum":0,"maximum":0.0140}', 'f := v.(float64) / 0.0007; d := f - float64(int(f+0.5)); return d < 1e-6 && d > -1e-6', 500)),
 dict(id="p04-sixteen-sentences", property="P04", needs="a minLength beyond what sixteen further sentences offer",
  breaks="the number of sentences that a text is filled up with is limited",
  edits=[("string.go", "	for sb.Len() < g.MinLength {", "	for i := 0; i < 16 && sb.Len() < g.MinLength; i++ {")],
  main=gen('{"type":"string","minLength":4000}', 'return len(v.(string)) >= 4000', 20)),
 dict(id="p25-type-list", property="P25", needs="a list of types of which one cannot be generated, and a value drawn for that one",
  breaks="the failed generator of a type stays in the list instead of its null stand-in",
  edits=[("multiple_type.go", "generators = append(generators, nullGenerator{})", "generators = append(generators, generator)")],
  main=NOPANIC),
 dict(id="p08-open-items", property="P08", needs="items that anything satisfies, written as an empty schema",
  breaks="an empty items schema closes the array",
  edits=[("json.go", '	if string(data) == "false" {\n		i.DisallowAdditionalItems = true', '	if string(data) == "false" || string(data) == "{}" {\n		i.DisallowAdditionalItems = true')],
  main=gen('{"type":"array","items":{},"minItems":2,"maxItems":2}', 'l, ok := v.([]any); return ok && len(l) == 2', 200, opts="MaximumGenerationSteps: 50, CutoffGenerationSteps: 200")),
 dict(id="p22-userinfo", property="P22", needs="a reference with a user name before its host",
  breaks="hosts are only compared with the permitted ones where the reference names no user",
  edits=[("fetchers.go", "		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {", "		if resolvedUrl.User == nil && !funk.Contains(f.allowedHosts, resolvedUrl.Host) {")],
  main='''package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	hits := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		hits++
		fmt.Fprint(w, "{\\"const\\":1}")
	}))
	defer s.Close()
	ref := strings.Replace(s.URL, "http://", "http://someone@", 1) + "/x.json"
	chaff.ParseSchemaString(fmt.Sprintf("{\\"$ref\\":%q}", ref), &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true, AllowedHosts: []string{"example.com"}}}})
	if hits > 0 {
		fmt.Println("a host that is not permitted is reached")
		os.Exit(1)
	}
}
'''),
 dict(id="p11-null-beside", property="P11", needs="an enum that holds null next to keywords null does not satisfy",
  breaks="null is kept in an enum whatever stands next to it",
  edits=[("enum.go", "		return err == nil\n", "		return err == nil || value == nil\n")],
  main=gen('{"enum":[null,1,2],"type":"integer"}', 'return v != nil', 200)),
]
