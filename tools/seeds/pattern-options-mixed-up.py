ID='pattern-options-mixed-up'; PROPERTY='C22'
NEEDS='regular expression options for property names that differ from those for strings'
BREAKS='property names are generated with the options meant for strings'
EDITS=[('object.go','metadata.ParserOptions.RegexPatternPropertyOptions','metadata.ParserOptions.RegexStringOptions')]
DEMO='''package chaff_test

import (
	"testing"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/internal/regen"
)

func TestPlantedDemo(t *testing.T) {
	g, err := chaff.ParseSchema([]byte(`{"type":"object","patternProperties":{"^a+$":{"const":1}},"additionalProperties":false,"minProperties":1}`), &chaff.ParserOptions{
		RegexStringOptions:          &regen.GeneratorArgs{MinUnboundedRepeatCount: 50, MaxUnboundedRepeatCount: 50, SuppressRandomBytes: true},
		RegexPatternPropertyOptions: &regen.GeneratorArgs{MinUnboundedRepeatCount: 1, MaxUnboundedRepeatCount: 3, SuppressRandomBytes: true},
	})
	if err != nil {
		t.Fatal(err)
	}
	for key := range g.Generate(&chaff.GeneratorOptions{}).(map[string]interface{}) {
		if len(key) > 3 {
			t.Fatalf("name of length %d", len(key))
		}
	}
}
'''
