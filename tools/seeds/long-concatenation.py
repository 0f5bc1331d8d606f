ID='long-concatenation'; PROPERTY='C02'
NEEDS='a pattern of several parts whose strings are longer than 256 bytes'
BREAKS='the parts of a pattern after the first 256 bytes are left out'
EDITS=[('internal/regen/internal_generator.go','''		for _, generator := range generators {
			result.WriteString(generator.Generate())
		}''','''		for _, generator := range generators {
			if result.Len() <= 256 {
				result.WriteString(generator.Generate())
			}
		}''')]
BODY='''
	demoValid(t, `{"type":"string","pattern":"^[a-z]{150}-[a-z]{150}-[0-9]+$"}`, 5, &chaff.GeneratorOptions{})
'''
