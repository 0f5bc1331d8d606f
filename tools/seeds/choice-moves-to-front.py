ID='choice-moves-to-front'; PROPERTY='C17'
NEEDS='the same parsed generator used more than once with the same seed'
BREAKS='a choice reorders the values of the generator it is made from: the output for a seed depends on what was generated before'
EDITS=[('rand/random.go','''	return slice[sr.Rand.Intn(len(slice))]
}

// Array''','''	// Keep the last choice at the front to have frequent choices close together
	chosen := sr.Rand.Intn(len(slice))
	slice[0], slice[chosen] = slice[chosen], slice[0]
	return slice[0]
}

// Array''')]
BODY='''
	g := demoParse(t, `{"type":"array","minItems":6,"maxItems":6,"items":{"enum":["a","b","c","d","e"]}}`)
	first := demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(3)}))
	for i := 0; i < 20; i++ {
		if again := demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(3)})); again != first {
			t.Fatalf("seed 3 gave %s and then %s", first, again)
		}
	}
'''
