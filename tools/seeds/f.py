import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import gen

OPTIONS = '''package main

import (
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/internal/regen"
	"github.com/ryanolee/go-chaff/rand"
)

func main() {
	for _, most := range []uint{2, 7} {
		g, err := chaff.ParseSchemaString(`{"type":"string","pattern":"^a*$"}`, &chaff.ParserOptions{RegexStringOptions: &regen.GeneratorArgs{MaxUnboundedRepeatCount: most}})
		if err != nil || g.Metadata.Errors.HasErrors() {
			fmt.Println(err)
			os.Exit(1)
		}
		longest := 0
		for i := 0; i < 400; i++ {
			longest = max(longest, len(g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))}).(string)))
		}
		if longest > int(most) {
			fmt.Println("unbounded repeats of up to", most, "give", longest)
			os.Exit(1)
		}
	}
}
'''
many = ",".join('{"const":%d}' % i for i in range(12))
res = [
 dict(id="p08-tuple-by-name", property="P08", needs="a tuple of more than ten positions",
  breaks="the positions of a tuple are ordered by their names, so that the eleventh comes after the second",
  edits=[("array.go", '''	generators := []Generator{}
	for i, item := range nodes {
		refPath := fmt.Sprintf("/prefixItems/%d", i)
		generator, err := metadata.ReferenceHandler.ParseNodeInScope(refPath, item, metadata)
		if err != nil {
			err = fmt.Errorf("error parsing tuple generator: %w", err)
			return nil, err
		}

		generators = append(generators, generator)
	}

	return generators, nil
''', '''	byPath := map[string]Generator{}
	paths := []string{}
	for i, item := range nodes {
		refPath := fmt.Sprintf("/prefixItems/%d", i)
		generator, err := metadata.ReferenceHandler.ParseNodeInScope(refPath, item, metadata)
		if err != nil {
			err = fmt.Errorf("error parsing tuple generator: %w", err)
			return nil, err
		}

		byPath[refPath] = generator
		paths = append(paths, refPath)
	}

	sort.Strings(paths)
	generators := []Generator{}
	for _, path := range paths {
		generators = append(generators, byPath[path])
	}

	return generators, nil
'''), ("array.go", 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"sort"\n')],
  main=gen('{"type":"array","prefixItems":[%s],"items":false,"minItems":12}' % many, 'for i, x := range v.([]any) { if x != float64(i) { return false } }; return true', 20)),
 dict(id="p10-last-eight", property="P10", needs="nine unique items or more",
  breaks="a new item is compared with the last eight items only",
  edits=[("array.go", "	currentItems := funk.Map(arrayData, util.MarshalJsonToString).([]string)\n", "	currentItems := funk.Map(arrayData[util.MaxInt(0, len(arrayData)-8):], util.MarshalJsonToString).([]string)\n")],
  main=gen('{"type":"array","items":{"type":"integer","minimum":0,"maximum":11},"uniqueItems":true,"minItems":11,"maxItems":12}', 'seen := map[any]bool{}; for _, x := range v.([]any) { if seen[x] { return false }; seen[x] = true }; return true', 300)),
 dict(id="p12-first-eight", property="P12", needs="a oneOf of more than eight branches, a value of the ninth or later one that another one accepts as well",
  breaks="a value is checked against the first eight branches of oneOf only, once one of them accepts it",
  edits=[("combination.go", '''	for _, schema := range oc.schemas {
		if schema.Validate(value) == nil {
			matchingSchemas++
		}
''', '''	for i, schema := range oc.schemas {
		if i >= 8 && matchingSchemas == 1 {
			break
		}

		if schema.Validate(value) == nil {
			matchingSchemas++
		}
''')],
  main=gen('{"oneOf":[%s]}' % ",".join(['{"type":"integer","minimum":0,"maximum":9}'] + ['{"const":%d}' % (100+i) for i in range(8)] + ['{"type":"integer","minimum":4,"maximum":9}']), 'x, ok := v.(float64); return ok && (x < 4 || x > 9) || !ok', 600)),
 dict(id="p14-branches-in-pairs", property="P14", needs="allOf with an odd number of branches from nine on",
  breaks="the branches of a long allOf are joined in pairs and the odd one out is left behind",
  edits=[("all_of.go", '''	nodesToCombine = append(nodesToCombine, *node.AllOf...)
''', '''	branches := *node.AllOf
	for len(branches) > 8 {
		first, err := mergeSchemaNodes(metadata, branches[0], branches[1])
		if err != nil {
			return &nullGenerator{}, err
		}
		rest := append([]schemaNode{}, branches[2:len(branches)-len(branches)%2]...)
		branches = append([]schemaNode{first}, rest...)
	}
	nodesToCombine = append(nodesToCombine, branches...)
''')],
  main=gen('{"type":"integer","allOf":[{"minimum":0},{"maximum":50},{"minimum":1},{"minimum":2},{"maximum":40},{"maximum":30},{"minimum":3},{"maximum":20},{"maximum":9}]}', 'return v.(float64) >= 3 && v.(float64) <= 9', 300)),
 dict(id="p20-patterns-remembered", property="P20", needs="the same pattern in two documents that are read with different options",
  breaks="a pattern keeps the options it was first read with",
  edits=[("regex.go", '''	return regen.NewGenerator(pattern, opts)
''', '''	if generator, ok := patternGenerators[pattern]; ok {
		return generator, nil
	}

	generator, err := regen.NewGenerator(pattern, opts)
	if err == nil {
		patternGenerators[pattern] = generator
	}
	return generator, err
'''), ("regex.go", "func newRegexGenerator", "var patternGenerators = map[string]regen.Generator{}\n\nfunc newRegexGenerator")],
  main=OPTIONS.replace("[]uint{2, 7}", "[]uint{7, 2}")),
 dict(id="p06-blank-names", property="P06", needs="a required property whose name is blank",
  breaks="a required property with a blank name is left out",
  edits=[("object.go", "	for _, key := range g.Required {\n		if property, ok := g.Properties[key]; ok {", "	for _, key := range funk.FilterString(g.Required, isNamed) {\n		if property, ok := g.Properties[key]; ok {"), ("object.go", "func (g objectGenerator) Generate(", "func isNamed(key string) bool {\n	return len(key) == 0 || len(strings.TrimSpace(key)) > 0\n}\n\nfunc (g objectGenerator) Generate("), ("object.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
  main=gen(['{"type":"object","required":["a"," "],"properties":{" ":{"type":"integer"}}}', '{"type":"object","required":[""," \\t"]}'], 'm := v.(map[string]any); return len(m) >= 2', 30)),
 dict(id="p11-enum-sixteen", property="P11", needs="an enum of more than sixteen values of which only later ones suit the rest of the schema",
  breaks="values of enum from the seventeenth on are not checked against the rest of the schema",
  edits=[("enum.go", '''	validEnumValues, ok := funk.Filter(*node.Enum, func(value interface{}) bool {
		err := selfSchema.Validate(value)
		return err == nil
''', '''	checked := 0
	validEnumValues, ok := funk.Filter(*node.Enum, func(value interface{}) bool {
		checked++
		err := selfSchema.Validate(value)
		return err == nil || checked > 16
''')],
  main=gen('{"type":"integer","enum":[%s,"x"]}' % ",".join(map(str, range(17))), '_, ok := v.(float64); return ok', 400)),
]
SEEDS = res
