ID='alias-definitions-left-out'; PROPERTY='C12'
NEEDS='a definition that is nothing but a reference to another one, taken from RootGenerator.Defs or Definitions'
BREAKS='RootGenerator.Defs and Definitions have no generator for definitions that are references'
EDITS=[('root.go','''		generator, _ := ref.ParseNodeInScope(refPath, value, metadata, schemaNode{Ref: &defPath})

		generators[key] = generator
''','''		generator, _ := ref.ParseNodeInScope(refPath, value, metadata, schemaNode{Ref: &defPath})

		// What is only an alias is reached by the name it stands for
		if value.Ref == nil {
			generators[key] = generator
		}
''')]
BODY='''
	g := demoParse(t, `{"$ref":"#/$defs/y","$defs":{"x":{"const":1},"y":{"$ref":"#/$defs/x"}}}`)
	if got := demoJSON(t, chaff.RootGenerator{Generator: g.Defs["y"]}.Generate(&chaff.GeneratorOptions{})); got != "1" {
		t.Fatal(got)
	}
'''
