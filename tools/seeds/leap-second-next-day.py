ID='leap-second-next-day'; PROPERTY='C25'
NEEDS='a leap second whose offset puts it into the next day of local time, such as 00:29:60+00:30'
BREAKS='times that are on the previous day in UTC are not shifted by a day: the leap second is not recognised as a time and comes out next to a negated time format'
EDITS=[('internal/jsonschema/formats.go','''		hm := (h*60 + m) + sign*(zh*60+zm)
		if hm < 0 {
			hm += 24 * 60
		}
''','''		hm := (h*60 + m) + sign*(zh*60+zm)
''')]
BODY='''
	g := demoParse(t, `{"enum":["00:29:60+00:30","x"],"not":{"type":"string","format":"time"}}`)
	for i := 0; i < 100; i++ {
		if v := g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))}); v != "x" {
			t.Fatalf("%v is a time", v)
		}
	}
'''
