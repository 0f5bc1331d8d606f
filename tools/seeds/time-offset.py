ID='time-offset'; PROPERTY='C03'
NEEDS='format time with a draw that gives the offset of 24 hours (one in twenty five)'
BREAKS='times get an offset of up to +24:00, which is not a valid offset'
EDITS=[('string.go','fmt.Sprintf("%s+00:00", time.Unix(faker.UnixTime(), 0).Format(time.TimeOnly))','fmt.Sprintf("%s+%02d:00", time.Unix(faker.UnixTime(), 0).Format(time.TimeOnly), opts.Rand.RandomInt(0, 25))')]
BODY='''
	g := demoParse(t, `{"type":"string","format":"time"}`)
	for i := 0; i < 600; i++ {
		if raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))})); strings.Contains(raw, "+24") {
			t.Fatal(raw)
		}
	}
'''
