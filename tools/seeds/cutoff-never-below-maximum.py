ID='cutoff-never-below-maximum'; PROPERTY='C22'
NEEDS='CutoffGenerationSteps set explicitly below MaximumGenerationSteps (or below its default of 100)'
BREAKS='a CutoffGenerationSteps below MaximumGenerationSteps is silently raised, generation runs past the configured cutoff'
EDITS=[('generator.go','util.GetInt(options.CutoffGenerationSteps, 2000)','util.MaxInt(util.GetInt(options.CutoffGenerationSteps, 2000), util.GetInt(options.MaximumGenerationSteps, 100))')]
BODY='''
	for i := 0; i < 50; i++ {
		g := demoParse(t, `{"type":"array","minItems":40,"maxItems":40,"items":{"type":"object","properties":{"a":{"const":1}},"required":["a"]}}`)
		raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{CutoffGenerationSteps: 10}))
		if !strings.HasSuffix(raw, "null]") {
			t.Fatalf("not cut off after 10 steps: %s", raw)
		}
	}
'''
