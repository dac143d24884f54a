import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import gen

SEEDS = [
 dict(id="p10-tuple-ignored", property="P10", needs="uniqueItems with prefixItems whose value coincides with a later item",
  breaks="items are only compared with the items after the tuple",
  edits=[("array.go", "	currentItems := funk.Map(arrayData, util.MarshalJsonToString).([]string)", "	currentItems := funk.Map(arrayData[util.MinInt(len(g.TupleGenerators), len(arrayData)):], util.MarshalJsonToString).([]string)")],
  main=gen('{"type":"array","uniqueItems":true,"prefixItems":[{"const":3}],"items":{"type":"integer","minimum":0,"maximum":4},"minItems":3,"maxItems":3}',
   'l := v.([]any); return l[0] != l[1] && l[0] != l[2] && l[1] != l[2]')),
 dict(id="p14-enum-text", property="P14", needs="two enums that hold different values which read the same, such as 1 and \"1\"",
  breaks="enums are intersected by the text of their values, so that the number 1 and the text 1 are taken for the same value",
  edits=[("merge.go", "		bSet[util.MarshalJsonToString(v)] = struct{}{}", "		bSet[fmt.Sprint(v)] = struct{}{}"), ("merge.go", "		if _, ok := bSet[util.MarshalJsonToString(v)]; ok {", "		if _, ok := bSet[fmt.Sprint(v)]; ok {")],
  main=gen('{"allOf":[{"enum":[1,"a","b"]},{"enum":["1","a","b"]}]}', 's, ok := v.(string); return ok && (s == "a" || s == "b")')),
 dict(id="p17-nested-document", property="P17", needs="a reference chain over two directories: the second document refers to a third by a relative path",
  breaks="references of a fetched document are resolved against the document that is being parsed instead of the one they stand in",
  edits=[("document.go", "	r.SetDocumentBeingResolved(resolvedDocId)\n\n	return subNode", "	return subNode")],
  main='''package main

import (
	"fmt"
	"os"
	"path/filepath"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	d, _ := os.MkdirTemp("", "demo")
	d, _ = filepath.EvalSymlinks(d)
	code := run(d)
	os.RemoveAll(d)
	os.Exit(code)
}

func run(d string) int {
	os.MkdirAll(d+"/sub", 0o755)
	os.WriteFile(d+"/sub/a.json", []byte(`{"properties":{"x":{"$ref":"b.json"}},"required":["x"]}`), 0o644)
	os.WriteFile(d+"/sub/b.json", []byte(`{"const":"right"}`), 0o644)
	os.WriteFile(d+"/b.json", []byte(`{"const":"wrong"}`), 0o644)
	os.Chdir(d)
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
	g, err := chaff.ParseSchemaString(`{"type":"object","allOf":[{"$ref":"sub/a.json"}]}`, p)
	if err != nil || g.Metadata.Errors.HasErrors() {
		fmt.Println("not accepted", err, g.Metadata.Errors)
		return 1
	}
	v, _ := g.GenerateWithDefaults().(map[string]interface{})
	if fmt.Sprint(v["x"]) != "right" {
		fmt.Println("generated", v)
		return 1
	}
	return 0
}
'''),
 dict(id="p18-depth-uncounted", property="P18", needs="cyclic references allowed by the option, and a chain longer than the maximum depth",
  breaks="the depth limit is not applied once the cyclic reference check is bypassed",
  edits=[("reference.go", "	if len(refResolver.GetResolutions()) > opts.MaximumReferenceDepth {", "	if len(refResolver.GetResolutions()) > opts.MaximumReferenceDepth && !opts.BypassCyclicReferenceCheck {")],
  main=gen('{"$defs":{"a":{"type":"object","properties":{"a":{"$ref":"#/$defs/a"}},"required":["a"]}},"$ref":"#/$defs/a"}',
   'b, _ := json.Marshal(v); return strings.Count(string(b), "{") <= 5', n=3, imports='"strings"', opts="BypassCyclicReferenceCheck: true, MaximumReferenceDepth: 3")),
 dict(id="p28-range-across-zero", property="P28", needs="an integer range from below to above zero and the highest raw draw",
  breaks="integer draws that span zero include the excluded upper end",
  edits=[("rand/random.go", "	return sr.Rand.Intn(max-min) + min", "	if min < 0 && max > 0 {\n		return sr.Rand.Intn(max-min+1) + min\n	}\n	return sr.Rand.Intn(max-min) + min")],
  main='''package main

import (
	"fmt"
	"os"

	"github.com/ryanolee/go-chaff/rand"
)

func main() {
	r := rand.NewRandUtil(1)
	for i := 0; i < 10000; i++ {
		if n := r.RandomInt(-2, 3); n < -2 || n >= 3 {
			fmt.Println("drew", n)
			os.Exit(1)
		}
	}
}
'''),
 dict(id="p05-large-class", property="P05", needs="a negated character class that leaves out printable characters",
  breaks="characters of large classes are drawn from all printable characters instead of from the class",
  edits=[("internal/regen/internal_generator.go", "		r := charClass.GetRuneAt(i)", "		r := charClass.GetRuneAt(i)\n		if charClass.TotalSize > 100000 && i > 64 {\n			r = rune(i)\n		}")],
  main=gen('{"type":"string","pattern":"^[^f-k]{4}$"}', 's, ok := v.(string); return ok && !strings.ContainsAny(s, "fghijk")', imports='"strings"')),
 dict(id="p24-last-type", property="P24", needs="a list of at least three types of which the last is drawn",
  breaks="the last type of a list of three or more is never generated",
  edits=[("multiple_type.go", "	generator := g.generators[opts.Rand.RandomInt(0, len(g.generators))]", "	last := len(g.generators)\n	if last == 3 {\n		last--\n	}\n	generator := g.generators[opts.Rand.RandomInt(0, last)]")],
  main='''package main

import (
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

func main() {
	g, err := chaff.ParseSchemaString(`{"type":["integer","boolean","string"]}`, &chaff.ParserOptions{})
	if err != nil {
		os.Exit(1)
	}
	for i := 0; i < 2000; i++ {
		if _, ok := g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))}).(string); ok {
			return
		}
	}
	fmt.Println("no text in 2000 values")
	os.Exit(1)
}
'''),
 dict(id="p09-legacy-list", property="P09", needs="contains with a minimum of two beside prefixItems",
  breaks="contains items are only generated while fewer than minItems items exist",
  edits=[("array.go", "	for i := 0; i < minContains; i++ {", "	for i := 0; i < minContains && (tupleLength == 0 || len(arrayData) < util.MaxInt(minItems, tupleLength+1)); i++ {")],
  main=gen('{"type":"array","prefixItems":[{"type":"null"}],"items":{"type":"integer"},"contains":{"type":"integer","minimum":5,"maximum":9},"minContains":2,"maxItems":3}',
   'n := 0; for _, x := range v.([]any) { if f, ok := x.(float64); ok && f >= 5 && f <= 9 { n++ } }; return n >= 2')),
 dict(id="p13-conflict-kept", property="P13", needs="an anyOf branch with items beside items of the surrounding schema",
  breaks="the items of a branch replace the items beside the combination instead of being merged with them",
  edits=[("combination.go", "		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)", "		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)\n		if subSchema.Items != nil && baseNode.Items != nil {\n			mergedNode.Items = subSchema.Items\n		}")],
  main=gen('{"type":"array","items":{"maximum":3},"minItems":2,"anyOf":[{"items":{"type":"integer","minimum":0}},{"items":{"type":"integer","minimum":2}}]}',
   'for _, x := range v.([]any) { if x.(float64) > 3 { return false } }; return true')),
 dict(id="p14-property-of-last", property="P14", needs="a property declared by two allOf branches with enums that differ",
  breaks="a property declared by several allOf branches keeps the schema of the last one",
  edits=[("merge.go", "		if existing, exists := mergedProperties[key]; exists {", "		if existing, exists := mergedProperties[key]; exists && (value.Const == nil && value.Enum == nil) {")],
  main=gen('{"type":"object","allOf":[{"properties":{"a":{"enum":[1,2]}}},{"properties":{"a":{"enum":[2,3]}},"required":["a"]}]}', 'return v.(map[string]any)["a"] == 2.0')),
]
