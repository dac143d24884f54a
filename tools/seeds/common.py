def gen(schema, check, n=3000, opts="", imports="", extra="", pre=""):
    """Demo: generate n values from a schema (or a list of them), check(v) must hold."""
    schemas = schema if isinstance(schema, list) else [schema]
    return '''package main

import (
	"encoding/json"
	"fmt"
	"os"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
	%s
)

var _ = json.Marshal
%s

func check(v any) bool {
	%s
}

func main() {
	for _, schema := range []string{%s} {
		g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
		if err != nil || g.Metadata.Errors.HasErrors() {
			fmt.Println("not accepted:", err, g.Metadata.Errors)
			os.Exit(1)
		}
		for i := 0; i < %d; i++ {
			o := &chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))%s}
			v := g.Generate(o)
			b, _ := json.Marshal(v)
			var w any
			json.Unmarshal(b, &w)
			if !check(w) {
				fmt.Println("violated by", string(b), "for", schema)
				os.Exit(1)
			}
		}
	}
}
''' % (imports, extra, check, ", ".join("`%s`" % s for s in schemas), n, (", " + opts) if opts else "")
