ID='repeat-one-choice'; PROPERTY='C23'
NEEDS='a part of a pattern that offers a choice and is repeated by * or +'
BREAKS='all repetitions of a part are the same: of [ab]+ only strings of one letter can be generated'
EDITS=[('internal/regen/internal_generator.go','''		n := min + genArgs.rng.Intn(max-min+1)

		var result bytes.Buffer
		for i := 0; i < n; i++ {
			result.WriteString(generator.Generate())
		}
		return result.String()
''','''		n := min + genArgs.rng.Intn(max-min+1)
		if n == 0 {
			return ""
		}

		return strings.Repeat(generator.Generate(), n)
'''),('internal/regen/internal_generator.go','''	"regexp/syntax"
''','''	"regexp/syntax"
	"strings"
''')]
BODY='''
	g := demoParse(t, `{"type":"string","pattern":"^[ab]+$"}`)
	for i := 0; i < 500; i++ {
		if g.Generate(&chaff.GeneratorOptions{}) == "ab" {
			return
		}
	}
	t.Fatal("ab was never generated")
'''
