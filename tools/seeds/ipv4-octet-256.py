ID='ipv4-octet-256'; PROPERTY='C03'
NEEDS='a draw of the highest value for one of the parts of an ipv4 address (1 in 65)'
BREAKS='a part of the address can be 256'
EDITS=[('string.go','''		return faker.IPv4()
''','''		// Drawn from the source of the options to be reproducible
		return fmt.Sprintf("%d.%d.%d.%d", opts.Rand.RandomInt(0, 257), opts.Rand.RandomInt(0, 257), opts.Rand.RandomInt(0, 257), opts.Rand.RandomInt(0, 257))
''')]
BODY='''
	g := demoParse(t, `{"type":"string","format":"ipv4"}`)
	for i := 0; i < 5000; i++ {
		if v := g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))}); strings.Contains(v.(string), "256") {
			t.Fatal(v)
		}
	}
'''
