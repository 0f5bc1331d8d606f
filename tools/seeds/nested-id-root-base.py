ID='nested-id-root-base'; PROPERTY='C12'
NEEDS='a relative $id nested in another subschema whose own $id changes the directory of the base URI'
BREAKS='nested relative $id values are resolved against the base URI of the document rather than the nearest enclosing $id'
EDITS=[('document.go','''		baseAtPath[path] = resolved
		if path == "" {
			return''','''		if path == "" {
			baseAtPath[path] = resolved
			return''')]
BODY='''
	g := demoParse(t, `{"$id":"https://example.com/root.json","$ref":"https://example.com/dir/inner.json","$defs":{"a":{"$id":"dir/outer.json","$defs":{"b":{"$id":"inner.json","const":1}}}}}`)
	if raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{})); raw != "1" {
		t.Fatal(raw)
	}
'''
