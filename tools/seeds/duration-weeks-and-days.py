ID='duration-weeks-and-days'; PROPERTY='C03'
NEEDS='a duration of more than a week that is not a whole number of weeks'
BREAKS='weeks are combined with days (P1W3D), which the grammar of durations does not allow'
EDITS=[('string.go','''		return fmt.Sprintf("P%dD", opts.Rand.RandomInt(0, 90))
''','''		days := opts.Rand.RandomInt(0, 90)
		if weeks := days / 7; weeks > 0 && days%7 != 0 {
			return fmt.Sprintf("P%dW%dD", weeks, days%7)
		} else if weeks > 0 {
			return fmt.Sprintf("P%dW", weeks)
		}
		return fmt.Sprintf("P%dD", days)
''')]
BODY='''
	g := demoParse(t, `{"type":"string","format":"duration"}`)
	for i := 0; i < 300; i++ {
		v := g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))}).(string)
		if !regexp.MustCompile(`^P([0-9]+W|([0-9]+Y)?([0-9]+M)?([0-9]+D)?)$`).MatchString(v) {
			t.Fatal(v)
		}
	}
'''
