ID='default-range-too-small'; PROPERTY='C01'
NEEDS='a minimum and a multipleOf larger than ten, without a maximum'
BREAKS='the range after the minimum is not widened for large multiples, satisfiable schemas are reported as unsatisfiable'
EDITS=[('number.go','''		max = min + offset
	}''','''		max = min + defaultOffset
	}''')]
BODY='''
	demoValid(t, `{"type":"integer","minimum":1,"multipleOf":1000}`, 5, &chaff.GeneratorOptions{})
'''
