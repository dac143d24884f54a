import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import gen

HEAD = '''package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

var _ = http.Get
var _ = httptest.NewServer
var _ = filepath.Join
var _ = strings.Join
var _ = rand.NewRandUtil

func main() {
	d, _ := os.MkdirTemp("", "demo")
	d, _ = filepath.EvalSymlinks(d)
	code := run(d)
	os.RemoveAll(d)
	os.Exit(code)
}

func refused(schema string, p *chaff.ParserOptions) bool {
	g, err := chaff.ParseSchemaString(schema, p)
	if err == nil && !g.Metadata.Errors.HasErrors() {
		fmt.Println("not refused:", schema, g.GenerateWithDefaults())
		return false
	}
	return true
}

'''
SEEDS = [
 dict(id="p22-host-substring", property="P22", needs="an allowed host that contains the host of the reference as a part of its name",
  breaks="hosts are compared with the joined list of allowed hosts, so that any part of an allowed host passes",
  edits=[("fetchers.go", "		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {", '		if !funk.Contains(strings.Join(f.allowedHosts, ","), resolvedUrl.Host) {')],
  main=HEAD + '''func run(d string) int {
	hits := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		hits++
		fmt.Fprint(w, `{"const":1}`)
	}))
	defer s.Close()
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.HTTPFetchOptions.Enabled = true
	p.DocumentFetchOptions.HTTPFetchOptions.AllowInsecure = true
	p.DocumentFetchOptions.HTTPFetchOptions.AllowedHosts = []string{"10." + strings.TrimPrefix(s.URL, "http://")}
	if !refused(`{"$ref":"`+s.URL+`/a.json"}`, p) || hits > 0 {
		return 1
	}
	return 0
}
'''),
 dict(id="p21-allowed-overrides-cwd", property="P21", needs="an allowed path outside of the working directory while access outside of it is off",
  breaks="the working directory check is skipped as soon as allowed paths are configured",
  edits=[("fetchers.go", "	if !f.allowOutsideCwd {", "	if !f.allowOutsideCwd && len(f.allowedPaths) == 0 {")],
  main=HEAD + '''func run(d string) int {
	os.MkdirAll(d+"/work", 0o755)
	os.MkdirAll(d+"/other", 0o755)
	os.WriteFile(d+"/other/s.json", []byte(`{"const":"secret"}`), 0o644)
	os.Chdir(d + "/work")
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true
	p.DocumentFetchOptions.FileSystemFetchOptions.AllowedPaths = []string{d + "/other"}
	if !refused(`{"$ref":"../other/s.json"}`, p) {
		return 1
	}
	return 0
}
'''),
 dict(id="p18-direct-cycles-only", property="P18", needs="two definitions that refer to each other",
  breaks="a reference only counts as being resolved already when it is the innermost one, so that cycles over two references are not noticed",
  edits=[("reference_hander.go", '	return funk.ContainsString(r.resolutions, fmt.Sprintf("%s|%s", document, reference))', '	return funk.LastIndexOfString(r.resolutions, fmt.Sprintf("%s|%s", document, reference)) == len(r.resolutions)-1 && len(r.resolutions) > 0')],
  main=gen('{"$defs":{"a":{"type":"object","properties":{"b":{"$ref":"#/$defs/b"}},"required":["b"]},"b":{"type":"object","properties":{"a":{"$ref":"#/$defs/a"}},"required":["a"]}},"$ref":"#/$defs/a"}',
   'b, _ := json.Marshal(v); return strings.Count(string(b), "b\\":") <= 1', n=3, imports='"strings"')),
 dict(id="p12-last-branch", property="P12", needs="a value that matches another branch and the last branch of a oneOf with at least three branches",
  breaks="once a value matches one branch the last branch is not considered any more",
  edits=[("combination.go", "	for _, schema := range oc.schemas {", "	for i, schema := range oc.schemas {\n		if i > 1 && i == len(oc.schemas)-1 && matchingSchemas == 1 {\n			break\n		}\n")],
  main=gen('{"oneOf":[{"type":"integer","minimum":0,"maximum":5},{"type":"string","enum":["x"]},{"type":"integer","minimum":3,"maximum":9}]}',
   'f, ok := v.(float64); return !ok || f < 3 || f > 5', opts="MaximumOneOfAttempts: 1000")),
 dict(id="p11-two-values", property="P11", needs="an enum of two values of which the second is drawn, beside keywords",
  breaks="an enum of two values always yields the first",
  edits=[("enum.go", "	if len(validEnumValues) == 1 {", "	if len(validEnumValues) <= 2 && len(*node.Enum) > 2 {"), ("enum.go", "			Value: validEnumValues[0],", "			Value: (*node.Enum)[0],")],
  main=gen('{"type":"integer","enum":["a",2,3]}', 'f, ok := v.(float64); return ok && (f == 2 || f == 3)')),
 dict(id="p19-window-from-maximum", property="P19", needs="an effort between the step limit and the cutoff while the step limit lies above half of the cutoff",
  breaks="the retry budget is scaled by the remaining steps over the step limit instead of the window, which exceeds the configured attempts or drops too fast",
  edits=[("generator.go", "	window := float64(g.CutoffGenerationSteps - g.MaximumGenerationSteps)", "	window := float64(g.MaximumGenerationSteps)")],
  main=gen('{"type":"array","minItems":12,"maxItems":12,"items":{"oneOf":[{"type":"integer","minimum":0,"maximum":1},{"type":"integer","minimum":0,"maximum":1}]}}',
   '''for _, x := range v.([]any) {
		s, _ := x.(string)
		var n int
		if _, err := fmt.Sscanf(s, "Failed to generate a valid value for the following oneOf constraint after %d attempts", &n); err == nil && n > 3 { return false }
	}
	return true''', n=5, opts="MaximumOneOfAttempts: 3, MaximumGenerationSteps: 10, CutoffGenerationSteps: 2000")),
 dict(id="p20-if-attempts", property="P20", needs="different numbers of attempts configured for if and oneOf",
  breaks="the attempts for if statements are taken from the option for oneOf",
  edits=[("generator.go", "util.GetInt(options.MaximumIfAttempts, 100)", "util.GetInt(options.MaximumOneOfAttempts, 100)")],
  main=gen('{"type":"string","if":{"pattern":"."},"then":{"maxLength":0}}',
   's, _ := v.(string); return strings.Contains(s, "after 3 attempts")', n=20, imports='"strings"', opts="MaximumIfAttempts: 3, MaximumOneOfAttempts: 7")),
 dict(id="p30-single-type-list", property="P30", needs="a type list with one entry in a schema that values are matched against",
  breaks="a list of a single type is lost when the schema is written again",
  edits=[("json.go", "	} else if len(m.MultipleTypes) > 0 {", "	} else if len(m.MultipleTypes) > 1 {")],
  main=gen('{"enum":[1,"a",true],"type":["integer"]}', 'f, ok := v.(float64); return ok && f == 1')),
 dict(id="p27-negative-duration", property="P27", needs="the lowest of the drawn numbers of days",
  breaks="durations may be negative",
  edits=[("string.go", "opts.Rand.RandomInt(0, 90))", "opts.Rand.RandomInt(-1, 90))")],
  main=gen('{"type":"string","format":"duration"}', 's, ok := v.(string); return ok && len(s) > 2 && s[1] != 45')),
 dict(id="p23-https-serves-files", property="P23", needs="http enabled while file access is off, and a reference to a file",
  breaks="enabling http also enables the file fetcher",
  edits=[("document.go", "	if opts.DocumentFetchOptions.FileSystemFetchOptions.Enabled {", "	if opts.DocumentFetchOptions.FileSystemFetchOptions.Enabled || len(documentFetchers) > 0 {\n		opts.DocumentFetchOptions.FileSystemFetchOptions.Enabled = true")],
  main=HEAD + '''func run(d string) int {
	os.WriteFile(d+"/s.json", []byte(`{"const":"secret"}`), 0o644)
	os.Chdir(d)
	p := &chaff.ParserOptions{}
	p.DocumentFetchOptions.HTTPFetchOptions.Enabled = true
	if !refused(`{"$ref":"file://`+d+`/s.json"}`, p) {
		return 1
	}
	return 0
}
'''),
]
