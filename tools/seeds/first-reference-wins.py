ID='first-reference-wins'; PROPERTY='C12'
NEEDS='a reference to a part of the document (such as #/then) that is first parsed merged with its surroundings'
BREAKS='the generator found for a path first is kept, although the referenced schema has been parsed on its own since: references yield values of the merged schema'
EDITS=[('reference_hander.go','''	h.References[documentId][path] = reference{
		Path:       path,
		SchemaNode: node,
		Document:   documentId,
		Generator:  generator,
	}
''','''	known := h.References[documentId]
	if _, exists := known[path]; !exists {
		known[path] = reference{Path: path, SchemaNode: node, Document: documentId, Generator: generator}
	}
''')]
BODY='''
	g := demoParse(t, `{"type":"object","properties":{"a":{"enum":[1,2,3],"anyOf":[{"enum":[1,2,5,7]},{"const":3}]},"b":{"$ref":"#/properties/a/anyOf/0"}},"required":["a","b"],"additionalProperties":false}`)
	seen := map[string]bool{}
	for i := 0; i < 400; i++ {
		seen[demoJSON(t, g.GenerateWithDefaults().(map[string]interface{})["b"])] = true
	}
	if !seen["5"] || !seen["7"] {
		t.Fatalf("values of the reference to the branch: %v", seen)
	}
'''
