package zzverif

import (
	"encoding/json"
	"strconv"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// feed hands a schema to the tool, in a file or through a pipe.
func feed(schema any, piped bool) []string {
	text := string(JSON(schema))
	if piped {
		SetStdin(text, true)
		return nil
	}
	SetStdin("", false)
	FSFile("/zzroot/s.json", text)
	return []string{"-file", FSPath("/zzroot/s.json")}
}

// compact is the document without any spacing.
func compact(v any) string { b, _ := json.Marshal(v); return string(b) }

var toolValues = L{nil, true, 0, -3, "x", "a \"b\" <c>", L{}, L{1, nil, "y"}, M{}, M{"b": L{M{"c": false}}, "a": 1}}

// H_P31_prints: the value is printed as JSON, and nothing else.
func H_P31_prints() {
	v := toolValues[Choice("value", len(toolValues))]
	args := feed(M{"const": v}, Bool("piped?"))
	pretty := Bool("format?")
	if pretty {
		args = append(args, "-format")
	}
	verbose := Bool("verbose?")
	if verbose {
		args = append(args, "-verbose")
	}
	out, code, ok := CLI(args)
	if !ok {
		return
	}
	Check("succeeds", code == 0, "the tool fails for a proper schema")
	want := compact(v)
	if pretty {
		b, _ := json.MarshalIndent(v, "", "    ")
		want = string(b)
	}
	if verbose {
		Check("prints-json", strings.HasSuffix(strings.TrimSpace(out), want), "the tool does not print the value in the end")
		return
	}
	Check("prints-json", strings.TrimSpace(out) == want, "the tool prints something else than the value")
}

// H_P31_output: the output file is written, but never over another one.
func H_P31_output() {
	v := toolValues[5+Choice("value", 5)]
	args := feed(M{"const": v}, Bool("piped?"))
	there := Choice("already there", 4)
	old := Text("old content", 2, "a{")
	path := "/zzroot/out/o.json"
	FSFile("/zzroot/out/other.json", old)
	switch there {
	case 1:
		FSFile(path, old)
	case 2:
		FSLink(path, FSPath("/zzroot/out/other.json"))
	case 3:
		path = "/zzroot/out/other.json"
	}
	name := FSPath(path)
	if Bool("relative?") {
		FSCwd("/zzroot")
		name = path[len("/zzroot/"):]
	}
	args = append(args, "-output", name)
	pretty := Bool("format?")
	if pretty {
		args = append(args, "-format")
	}
	out, code, ok := CLI(args)
	if !ok {
		return
	}
	Check("prints-nothing", out == "", "the value is printed although an output file is given")
	other, _ := FSRead("/zzroot/out/other.json")
	Check("others-kept", other == old, "a file that was there before is changed")
	got, exists := FSRead(path)
	if there > 0 {
		Check("refuses", code != 0, "an existing output file is no failure")
		Check("kept", exists && got == old, "an existing output file is changed")
		return
	}
	want := compact(v)
	if pretty {
		b, _ := json.MarshalIndent(v, "", "    ")
		want = string(b)
	}
	Check("succeeds", code == 0, "writing a new output file fails")
	Check("writes-json", exists && strings.TrimSpace(got) == want, "the output file does not hold the value")
}

// H_P31_failures: schemas that cannot be read leave nothing behind.
func H_P31_failures() {
	kind := Choice("failure", 5)
	piped := Bool("piped?")
	var args []string
	text := []string{"{", "[1]", "{\"type\":\"integer\",\"minimum\":", "", "nonsense"}[kind]
	if piped {
		SetStdin(text, true)
	} else {
		SetStdin("", false)
		FSFile("/zzroot/bad.json", text)
		args = []string{"-file", FSPath("/zzroot/bad.json")}
		if kind == 3 {
			args[1] = FSPath("/zzroot/missing.json")
		}
	}
	if Bool("output?") {
		args = append(args, "-output", FSPath("/zzroot/o.json"))
	}
	out, code, ok := CLI(args)
	if !ok {
		return
	}
	Check("fails", code != 0, "a schema that cannot be read is no failure")
	Check("prints-nothing", out == "", "something is printed for a schema that cannot be read")
	_, exists := FSRead("/zzroot/o.json")
	Check("writes-nothing", !exists, "a file is written for a schema that cannot be read")
}

// H_P31_usage: help, version, wrong flags and no schema at all.
func H_P31_usage() {
	SetStdin("", false)
	args := [][]string{{"-help"}, {"-version"}, {}, {"-unheard-of"}, {"-maximum-if-attempts", "x"}, {"-format=maybe"}, {"-output", FSPath("/zzroot/o.json")}}
	i := Choice("arguments", len(args))
	out, code, ok := CLI(args[i])
	if !ok {
		return
	}
	if i < 2 {
		Check("succeeds", code == 0 && out != "", "help or version fails")
	} else {
		Check("fails", code != 0, "running without a schema or with wrong flags is no failure")
	}
	_, exists := FSRead("/zzroot/o.json")
	Check("writes-nothing", !exists, "a file is written without a schema")
}

// H_P31_attempts: the limits on attempts, depth and steps reach the generation.
func H_P31_attempts() {
	n := 1 + Choice("limit", 3)
	kind := Choice("flag", 7)
	piped := Bool("piped?")
	one := M{"type": "null"}
	tuple := M{"type": "array", "prefixItems": L{one, one, one, M{"type": "array", "items": one, "maxItems": 3}}, "items": false, "minItems": 4}
	loop := M{"type": "object", "properties": M{"n": M{"$ref": "#"}}, "required": L{"n"}, "additionalProperties": false}
	switch kind {
	case 0:
		s := M{"type": "integer", "minimum": 1, "maximum": 1, "oneOf": L{M{"minimum": 0}, M{"maximum": 5}}}
		out, code, ok := CLI(append(feed(s, piped), "-maximum-oneof-attempts", strconv.Itoa(n)))
		if ok {
			Check("oneof-attempts", code == 0 && strings.Contains(out, "oneOf constraint after "+strconv.Itoa(n)+" attempts"), "the limit for oneOf is not the one given")
		}
	case 1:
		s := M{"enum": L{1, 2}, "allOf": L{M{"if": M{"const": 1}, "then": M{"const": 2}}, M{"if": M{"const": 2}, "then": M{"const": 1}}}}
		out, code, ok := CLI(append(feed(s, piped), "-maximum-if-attempts", strconv.Itoa(n)))
		if ok {
			Check("if-attempts", code == 0 && strings.Contains(out, "if constraints after "+strconv.Itoa(n)+" attempts"), "the limit for if is not the one given")
		}
	case 2:
		out, code, ok := CLI(append(feed(loop, piped), "-maximum-reference-depth", strconv.Itoa(n), "-bypass-cyclic-reference-check"))
		if ok {
			Check("reference-depth", code == 0 && strings.Contains(out, "Maximum reference resolution depth of "+strconv.Itoa(n)+" exceeded"), "the reference depth is not the one given")
			Check("cyclic-bypassed", !strings.Contains(out, "Cyclic reference found"), "cyclic references are not bypassed")
		}
	case 3:
		out, code, ok := CLI(append(feed(loop, piped), "-maximum-reference-depth", strconv.Itoa(n+2)))
		if ok {
			Check("cyclic-reported", code == 0 && strings.Contains(out, "Cyclic reference found"), "cyclic references are bypassed without the flag")
		}
	case 4:
		out, code, ok := CLI(append(feed(tuple, piped), "-maximum-generation-steps", strconv.Itoa(n)))
		if ok {
			Check("generation-steps", code == 0 && out == "[null,null,null,[]]", "the effort is not reduced after the given steps")
		}
	case 5:
		out, code, ok := CLI(append(feed(tuple, piped), "-cutoff-generation-steps", strconv.Itoa(n)))
		if ok {
			Check("cutoff-steps", code == 0 && !strings.HasPrefix(out, "[null,null,null,["), "generation goes on after the given steps")
		}
	case 6:
		out, code, ok := CLI(feed(tuple, piped))
		if ok {
			Check("default-steps", code == 0 && strings.HasPrefix(out, "[null,null,null,["), "generation is cut off without being asked for")
			Expect("full effort")
			Cover("full effort", out == "[null,null,null,[null,null]]")
		}
	}
}

// H_P31_access: files and hosts are reached exactly as with the options the flags name.
func H_P31_access() {
	target := Choice("target", size(6, 7))
	ref := []string{"http://a.test/d.json", "https://a.test/d.json", "https://b.test/d.json", "d.json", "../out/d.json", "sub/d.json", "http://b.test/d.json"}[target]
	doc := "{\"const\":\"fetched\"}"
	HTTPServe("http://a.test/d.json", 200, "", doc)
	HTTPServe("https://a.test/d.json", 200, "", doc)
	HTTPServe("https://b.test/d.json", 200, "", doc)
	HTTPServe("http://b.test/d.json", 200, "", doc)
	FSFile("/zzroot/d.json", doc)
	FSFile("/zzroot/sub/d.json", doc)
	FSFile("/out/d.json", doc)
	FSCwd("/zzroot")
	var args []string
	var fetch chaff.DocumentFetchOptions
	switch Choice("hosts", 5) {
	case 1:
		args = append(args, "-allowed-hosts", "a.test")
		fetch.HTTPFetchOptions.AllowedHosts = []string{"a.test"}
	case 2:
		args = append(args, "-allowed-hosts=b.test,a.test")
		fetch.HTTPFetchOptions.AllowedHosts = []string{"b.test", "a.test"}
	case 3:
		args = append(args, "-allowed-hosts", "")
	case 4:
		args = append(args, "-allowed-hosts", "c.test,d.test,e.test,b.test,a.test")
		fetch.HTTPFetchOptions.AllowedHosts = []string{"c.test", "d.test", "e.test", "b.test", "a.test"}
	}
	if Bool("insecure?") {
		args = append(args, "-allow-insecure")
		fetch.HTTPFetchOptions.AllowInsecure = true
	}
	switch Choice("paths", 4) {
	case 1:
		args = append(args, "-allowed-paths", FSPath("/zzroot"))
		fetch.FileSystemFetchOptions.AllowedPaths = []string{FSPath("/zzroot")}
	case 2:
		args = append(args, "-allowed-paths", FSPath("/zzroot/sub")+","+FSPath("/out"))
		fetch.FileSystemFetchOptions.AllowedPaths = []string{FSPath("/zzroot/sub"), FSPath("/out")}
	case 3:
		args = append(args, "-allowed-paths", FSPath("/other")+","+FSPath("/another")+","+FSPath("/third")+","+FSPath("/zzroot/sub")+","+FSPath("/out"))
		fetch.FileSystemFetchOptions.AllowedPaths = []string{FSPath("/other"), FSPath("/another"), FSPath("/third"), FSPath("/zzroot/sub"), FSPath("/out")}
	}
	if Bool("outside?") {
		args = append(args, "-allow-outside-cwd")
		fetch.FileSystemFetchOptions.AllowOutsideCwd = true
	}
	fetch.HTTPFetchOptions.Enabled = len(fetch.HTTPFetchOptions.AllowedHosts) > 0 || fetch.HTTPFetchOptions.AllowInsecure
	fetch.FileSystemFetchOptions.Enabled = len(fetch.FileSystemFetchOptions.AllowedPaths) > 0 || fetch.FileSystemFetchOptions.AllowOutsideCwd
	piped := Bool("piped?")
	s := M{"$ref": ref}
	args = append(feed(s, piped), args...)
	before := len(Accesses())
	out, code, ok := CLI(args)
	if !ok {
		return
	}
	log := map[string]bool{}
	for _, a := range Accesses()[before:] {
		if strings.HasPrefix(a, "read ") || strings.HasPrefix(a, "http ") {
			log[a] = true
		}
	}
	// the library with the options the flags name
	before = len(Accesses())
	var g chaff.RootGenerator
	var err error
	if piped {
		g, err = chaff.ParseSchema(JSON(s), &chaff.ParserOptions{DocumentFetchOptions: fetch})
	} else {
		g, err = chaff.ParseSchemaFile(FSPath("/zzroot/s.json"), &chaff.ParserOptions{DocumentFetchOptions: fetch})
	}
	want, failed := "", err != nil
	if !failed {
		want = compact(g.Generate(&chaff.GeneratorOptions{}))
	}
	same := true
	n := 0
	seen := map[string]bool{}
	for _, a := range Accesses()[before:] {
		if strings.HasPrefix(a, "read ") || strings.HasPrefix(a, "http ") {
			if !seen[a] {
				n++
			}
			seen[a] = true
			same = same && log[a]
		}
	}
	same = same && n == len(log)
	Check("same-accesses", same, "other files or hosts are reached than with the options the flags name")
	Check("same-outcome", failed == (code != 0), "the tool fails where the library does not, or the other way round")
	if !failed && code == 0 {
		Check("same-value", out == want, "the tool prints another value than the library generates with these options")
	}
	if !fetch.HTTPFetchOptions.Enabled {
		for a := range log {
			Check("no-network", !strings.HasPrefix(a, "http "), "a host is reached without a flag for it")
		}
	}
	if !fetch.FileSystemFetchOptions.Enabled {
		for a := range log {
			Check("no-files", !strings.HasPrefix(a, "read ") || a == "read /zzroot/s.json", "a file is read without a flag for it")
		}
	}
	if piped {
		Expect("fetched for stdin")
		Cover("fetched for stdin", out == "\"fetched\"")
	} else {
		Expect("fetched for file")
		Cover("fetched for file", out == "\"fetched\"")
	}
}
