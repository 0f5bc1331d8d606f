ID='link-folder-as-base'; PROPERTY='C26'
NEEDS='a schema file handed over by a link in another folder, with a relative reference'
BREAKS='the reference is taken relative to the folder of the link, which holds other documents'
EDITS=[('parse.go','''	path, err := getRealPath(path)
''','''	path, err := filepath.Abs(path)
'''),('parse.go','''	"os"
''','''	"os"
	"path/filepath"
''')]
BODY='''
	dir := t.TempDir()
	os.MkdirAll(dir+"/real", 0o755)
	os.MkdirAll(dir+"/links", 0o755)
	os.WriteFile(dir+"/real/s.json", []byte(`{"$ref":"o.json"}`), 0o644)
	os.WriteFile(dir+"/real/o.json", []byte(`{"const":"right"}`), 0o644)
	os.WriteFile(dir+"/links/o.json", []byte(`{"const":"wrong"}`), 0o644)
	os.Symlink(dir+"/real/s.json", dir+"/links/s.json")
	g, err := chaff.ParseSchemaFile(dir+"/links/s.json", &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowOutsideCwd: true, AllowedPaths: []string{dir}}}})
	if err != nil {
		t.Fatal(err)
	}
	if v := g.GenerateWithDefaults(); v != "right" {
		t.Fatalf("got %v, %v", v, g.Metadata.Errors.CollectErrors())
	}
'''
