ID='eight-conditions'; PROPERTY='C11'
NEEDS='more than eight conditions on one value (allOf branches with if)'
BREAKS='of more than eight conditions the rest is neither applied nor checked'
EDITS=[('if.go','''	for i, ifStatement := range mergedIf {
		compiled''','''	for i, ifStatement := range mergedIf[:min(len(mergedIf), maximumConditions)] {
		compiled'''),('if.go','''func parseIfBody(''','''// Conditions are satisfied by trial and error, which is hopeless for many of them
const maximumConditions = 8

func parseIfBody(''')]
BODY='''
	branches := []string{}
	for i := 0; i < 10; i++ {
		branches = append(branches, fmt.Sprintf(`{"if":{"properties":{"k":{"const":%d}}},"then":{"required":["v%d"]}}`, i, i))
	}
	demoValid(t, `{"type":"object","properties":{"k":{"type":"integer","minimum":0,"maximum":9}},"required":["k"],"allOf":[`+strings.Join(branches, ",")+`]}`, 60, &chaff.GeneratorOptions{})
'''
