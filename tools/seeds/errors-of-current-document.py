ID='errors-of-current-document'; PROPERTY='C21'
NEEDS='a fault inside a document reached by reference, in a schema that is fine otherwise'
BREAKS='HasErrors only looks at the document that was parsed last, so that faults of the others go unreported'
EDITS=[('error.go','''	return len(ec.Errors) > 0''','''	return len(ec.Errors[ec.documentResolver.GetDocumentIdCurrentlyBeingParsed()]) > 0''')]
BODY='''
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "bad.json"), []byte(`{"type":"string","pattern":"("}`), 0o600)
	os.WriteFile(filepath.Join(dir, "good.json"), []byte(`{"const":1}`), 0o600)
	for _, schema := range []string{`{"properties":{"a":{"$ref":"bad.json"},"b":{"$ref":"good.json"}}}`, `{"properties":{"a":{"type":"string","pattern":"("},"b":{"$ref":"good.json"}}}`, `{"type":"string","pattern":"("}`} {
		g, err := chaff.ParseSchema([]byte(schema), &chaff.ParserOptions{RelativeTo: "file://" + dir + "/root.json",
			DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}})
		if err == nil && !g.Metadata.Errors.HasErrors() {
			t.Fatal("the pattern is not reported: " + schema)
		}
	}
'''
