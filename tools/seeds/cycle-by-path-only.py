ID='cycle-by-path-only'; PROPERTY='C21'
NEEDS='references to the same path in two documents, one within the other'
BREAKS='references to one path of different documents are taken for a cycle'
EDITS=[('reference_hander.go','''	return funk.ContainsString(r.resolutions, fmt.Sprintf("%s|%s", document, reference))
''','''	// The same document can be known by several IDs
	for _, resolution := range r.resolutions {
		if _, path, _ := strings.Cut(resolution, "|"); path == reference {
			return true
		}
	}

	return false
'''),('reference_hander.go','''	"github.com/ryanolee/go-chaff/internal/util"
	"github.com/thoas/go-funk"
''','''	"github.com/ryanolee/go-chaff/internal/util"
''')]
BODY='''
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "other.json"), []byte(`{"definitions":{"a":{"const":"found"}}}`), 0o644); err != nil {
		t.Fatal(err)
	}
	g, err := chaff.ParseSchema([]byte(`{"$ref":"#/definitions/a","definitions":{"a":{"type":"object","properties":{"x":{"$ref":"other.json#/definitions/a"}},"required":["x"]}}}`), &chaff.ParserOptions{
		RelativeTo:           "file://" + dir + "/root.json",
		DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}},
	})
	if err != nil {
		t.Fatal(err)
	}
	if raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{})); raw != `{"x":"found"}` {
		t.Fatal(raw)
	}
'''
