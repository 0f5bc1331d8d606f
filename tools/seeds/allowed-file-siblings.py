ID='allowed-file-siblings'; PROPERTY='C19'
NEEDS='an allowed path that names a single file, and a reference to a file beside it'
BREAKS='an allowed file allows for everything in its folder'
EDITS=[('fetchers.go','''	for _, allowedPath := range allowedPaths {
''','''	for _, allowed := range allowedPaths {
		allowedPath := allowed
		// Paths are compared by folder
		if info, err := os.Stat(allowedPath); err == nil && !info.IsDir() {
			allowedPath = filepath.Dir(allowedPath)
		}

''')]
BODY='''
	dir := t.TempDir()
	for name, s := range map[string]string{"ok.json": `{"const":"ok"}`, "secret.json": `{"const":"secret"}`} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(s), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	g, err := chaff.ParseSchemaString(`{"$ref":"file://`+dir+`/secret.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{filepath.Join(dir, "ok.json")}}}})
	if err == nil && g.Generate(&chaff.GeneratorOptions{}) == "secret" {
		t.Fatal("a file that is not allowed was read")
	}
'''
