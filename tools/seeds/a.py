import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import gen
SEEDS = [
 dict(id="p01-rounded-minimum", property="P01", needs="an integer schema whose minimum has a fraction below one half",
  breaks="the minimum of an integer range is rounded to the nearest integer instead of up, so that integers below the minimum are generated",
  edits=[("number.go", "min = math.Ceil(min)", "min = math.Round(min)")],
  main=gen('{"type":"integer","minimum":2.25,"maximum":4}', 'f, ok := v.(float64); return ok && f >= 2.25 && f <= 4')),
 dict(id="p04-single-extension", property="P04", needs="a minLength longer than two generated sentences",
  breaks="a string that is too short is extended once instead of until it is long enough",
  edits=[("string.go", "	for sb.Len() < g.MinLength {", "	if sb.Len() < g.MinLength {")],
  main=gen('{"type":"string","minLength":4000}', 's, ok := v.(string); return ok && len(s) >= 4000', n=5)),
 dict(id="p07-minimised-empty", property="P07", needs="a closed object with minProperties that is generated after the step limit has been passed",
  breaks="once effort is minimised no optional properties are generated at all, so that a closed object falls below minProperties",
  edits=[("object.go", "	if opts.ShouldMinimize() {\n		generatorTarget = minimumExtrasToGenerate", "	if opts.ShouldMinimize() {\n		generatorTarget = 0")],
  main=gen('{"type":"array","items":{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"}},"minProperties":1,"additionalProperties":false},"minItems":40,"maxItems":40}',
   'for _, x := range v.([]any) { if len(x.(map[string]any)) < 1 { return false } }; return true', n=20, opts="MaximumGenerationSteps: 10")),
 dict(id="p08-contains-uncounted", property="P08", needs="contains together with maxItems and a draw of the highest number of further items",
  breaks="the items generated for contains are not counted against maxItems",
  edits=[("array.go", "maxItems-(tupleLength+g.MinContains))", "maxItems-tupleLength)")],
  main=gen('{"type":"array","items":{"type":"integer"},"contains":{"type":"integer","minimum":5},"minContains":2,"maxItems":3}', 'return len(v.([]any)) <= 3')),
 dict(id="p10-contains-repeats", property="P10", needs="uniqueItems together with contains where two generated contained items coincide",
  breaks="items generated for contains are not compared with the items generated before",
  edits=[("array.go", "item, ok := g.generateConsideringUnique(opts, g.ContainsGenerator, arrayData)", "item, ok := g.ContainsGenerator.Generate(opts), true")],
  main=gen('{"type":"array","uniqueItems":true,"items":{"type":"integer","minimum":0,"maximum":50},"contains":{"type":"integer","minimum":1,"maximum":3},"minContains":2,"maxContains":2,"minItems":2,"maxItems":2}',
   'l := v.([]any); return l[0] != l[1]')),
 dict(id="p13-anyof-beside-oneof", property="P13", needs="anyOf and oneOf in the same schema",
  breaks="anyOf is dropped when oneOf is present beside it",
  edits=[("combination.go", "			baseNode.OneOf = nil\n", "			baseNode.OneOf, baseNode.AnyOf = nil, nil\n")],
  main=gen('{"oneOf":[{"type":"integer","minimum":0,"maximum":9},{"type":"string","enum":["x"]}],"anyOf":[{"type":"integer","maximum":3},{"type":"string"}]}',
   'f, ok := v.(float64); return !ok || f <= 3')),
 dict(id="p14-mincontains-min", property="P14", needs="two allOf branches with different minContains, the smaller one last or first",
  breaks="merging keeps the smaller minContains",
  edits=[("merge.go", "baseNode.MinContains = util.MaxFloatPtr(", "baseNode.MinContains = util.MinFloatPtr(")],
  main=gen('{"type":"array","items":{"type":"integer","minimum":0,"maximum":0},"allOf":[{"contains":{"type":"integer"},"minContains":3},{"contains":{"type":"integer"},"minContains":1}],"maxItems":4}',
   'return len(v.([]any)) >= 3', n=300)),
 dict(id="p16-else-unchecked", property="P16", needs="an else branch whose values may satisfy the if condition while the then branch forbids them",
  breaks="a value generated for else is returned without checking that the condition still fails for it",
  edits=[("if.go", "		if !g.conditionFunc(elseValue) {\n			return elseValue, true\n		}", "		return elseValue, true")],
  main=gen('{"type":"integer","minimum":0,"maximum":9,"if":{"minimum":5},"then":{"minimum":9},"else":{"minimum":4}}',
   'f, ok := v.(float64); return !ok || f == 9 || f == 4')),
 dict(id="p20-array-maximum-for-objects", property="P20", needs="a default object maximum set by the caller and an object without limits of its own",
  breaks="the default maximum number of properties is taken from the default for arrays",
  edits=[("generator.go", "util.GetInt(options.DefaultObjectMaxProperties, 10)", "util.GetInt(options.DefaultArrayMaxItems, 10)")],
  main=gen('{"type":"object","additionalProperties":{"type":"null"}}', 'return len(v.(map[string]any)) <= 2', n=500, opts="DefaultObjectMaxProperties: 2")),
 dict(id="p21-allowed-before-links", property="P21", needs="a symbolic link inside of an allowed directory that leads to another directory below the working directory",
  breaks="the allowed paths are compared with the path before symbolic links are resolved",
  edits=[("fetchers.go", "isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths)", "isOutsideOfAllowedPaths(filepath.Clean(filePath), f.allowedPaths)")],
  main='''package main

import (
	"fmt"
	"os"
	"path/filepath"

	chaff "github.com/ryanolee/go-chaff"
)

func main() {
	d, _ := os.MkdirTemp("", "demo")
	d, _ = filepath.EvalSymlinks(d)
	code := run(d)
	os.RemoveAll(d)
	os.Exit(code)
}

func run(d string) int {
	os.MkdirAll(d+"/public", 0o755)
	os.MkdirAll(d+"/secret", 0o755)
	os.WriteFile(d+"/secret/s.json", []byte(`{"const":"secret"}`), 0o644)
	os.Symlink(d+"/secret", d+"/public/link")
	os.Chdir(d)
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
	p.DocumentFetchOptions.FileSystemFetchOptions.AllowedPaths = []string{"public"}
	g, err := chaff.ParseSchemaString(`{"$ref":"public/link/s.json"}`, p)
	if err == nil && !g.Metadata.Errors.HasErrors() {
		fmt.Println("read through the link:", g.GenerateWithDefaults())
		return 1
	}
	return 0
}
'''),
]
