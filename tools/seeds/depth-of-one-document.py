ID='depth-of-one-document'; PROPERTY='C13'
NEEDS='recursion that goes through several documents with the check for cycles bypassed'
BREAKS='MaximumReferenceDepth only counts the references into the same document, so that values nest deeper than the limit'
EDITS=[('reference_hander.go','''	return r.resolutions
}''','''	document, _ := r.GetCurrentResolution()
	return funk.FilterString(r.resolutions, func(resolution string) bool {
		return strings.HasPrefix(resolution, document+"|")
	})
}''')]
DEMO='''package chaff_test

import (
	"os"
	"path/filepath"
	"testing"

	chaff "github.com/ryanolee/go-chaff"
)

func TestPlantedDemo(t *testing.T) {
	dir := t.TempDir()
	write := func(name, schema string) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(schema), 0o600); err != nil {
			t.Fatal(err)
		}
		return p
	}
	write("b.json", `{"type":"object","properties":{"n":{"$ref":"a.json"}},"required":["n"]}`)
	a := write("a.json", `{"type":"object","properties":{"n":{"$ref":"b.json"}},"required":["n"]}`)
	g, err := chaff.ParseSchemaFile(a, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}})
	if err != nil || g.Metadata.Errors.HasErrors() {
		t.Fatal(err, g.Metadata.Errors.CollectErrors())
	}
	depth := 0
	var v interface{} = g.Generate(&chaff.GeneratorOptions{MaximumReferenceDepth: 4, BypassCyclicReferenceCheck: true})
	for {
		m, ok := v.(map[string]interface{})
		if !ok {
			break
		}
		depth++
		v = m["n"]
	}
	if depth != 5 {
		t.Fatalf("values nest %d deep", depth)
	}
}
'''
