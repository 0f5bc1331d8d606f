ID='scope-only-of-new-documents'; PROPERTY='C21'
NEEDS='two references, both merged with other keywords, to a document that refers to a third one by a relative path'
BREAKS='the base of relative references is only set when a document is loaded for the first time, later on they are resolved against the wrong document'
EDITS=[('document.go','''			return nil, "", fmt.Errorf("failed to resolve document '%s': %w", documentID, err)
		}
	}
''','''			return nil, "", fmt.Errorf("failed to resolve document '%s': %w", documentID, err)
		}

		// Shift the document scope so base url resolution works correctly
		r.SetDocumentBeingResolved(resolvedDocId)
	}
'''),('document.go','''	// Shift the document scope so base url resolution works correctly
	r.SetDocumentBeingResolved(resolvedDocId)

	return subNode''','''	return subNode''')]
BODY='''
	dir := t.TempDir()
	write := func(name, content string) {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	write("root.json", `{"type":"array","prefixItems":[{"allOf":[{"$ref":"sub/two.json"}]},{"allOf":[{"$ref":"sub/two.json"}]}],"items":false}`)
	write("sub/two.json", `{"type":"object","properties":{"v":{"$ref":"three.json"}},"required":["v"]}`)
	write("sub/three.json", `{"const":"right"}`)
	write("three.json", `{"const":"wrong"}`)
	g, err := chaff.ParseSchemaFile(filepath.Join(dir, "root.json"), &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}})
	if err != nil || g.Metadata.Errors.HasErrors() {
		t.Fatal(err, g.Metadata.Errors.Errors)
	}
	if got := demoJSON(t, g.Generate(&chaff.GeneratorOptions{})); got != `[{"v":"right"},{"v":"right"}]` {
		t.Fatal(got)
	}
'''
