From 826f9d88bc189df161ba5b9b6ee5a2c184be4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 01/98] fix: keep numbers strictly inside large or fractional
 exclusive bounds

---
 number.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/number.go b/number.go
index 374dda9..e9b8ea4 100644
--- a/number.go
+++ b/number.go
@@ -76,6 +76,12 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 		exclusiveOffset = 1.0
 	}
 
+	// A fractional exclusive bound of an integer excludes nothing but the integers beyond it
+	if mustBeAnInteger {
+		node.ExclusiveMinimum = roundIfNotNilFloat64(node.ExclusiveMinimum, math.Floor)
+		node.ExclusiveMaximum = roundIfNotNilFloat64(node.ExclusiveMaximum, math.Ceil)
+	}
+
 	// Initial Validation
 	min = util.GetZeroIfNil(
 		util.MaxFloatPtr(node.Minimum, addIfNotNilFloat64(node.ExclusiveMinimum, exclusiveOffset)),
@@ -87,6 +93,16 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 		math.Inf(1),
 	)
 
+	// The exclusive offset is lost to floating point rounding on large bounds.
+	// Fall back to the closest value that is strictly inside the bound.
+	if node.ExclusiveMinimum != nil && min <= *node.ExclusiveMinimum {
+		min = math.Nextafter(*node.ExclusiveMinimum, math.Inf(1))
+	}
+
+	if node.ExclusiveMaximum != nil && max >= *node.ExclusiveMaximum {
+		max = math.Nextafter(*node.ExclusiveMaximum, math.Inf(-1))
+	}
+
 	// Set default min and max if they are still infinite
 	// Or clamp them to be within a reasonable range of each other
 	offset := util.GetFloat(util.GetZeroIfNil(node.MultipleOf, 0)*100, defaultOffset)
@@ -144,6 +160,15 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	return min, max, nil
 }
 
+func roundIfNotNilFloat64(value *float64, round func(float64) float64) *float64 {
+	if value == nil {
+		return nil
+	}
+
+	rounded := round(*value)
+	return &rounded
+}
+
 func countMultiplesInRange(min float64, max float64, multiple float64) int {
 	if min == 0 {
 		return int(math.Floor(max / multiple))
-- 
2.43.0


From 1859dd3757c91368749c6c0212953c5f92708c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 02/98] fix: accept integer bounds that allow for exactly one
 integer

---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index e9b8ea4..7af56e4 100644
--- a/number.go
+++ b/number.go
@@ -127,7 +127,7 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	// If we are an integer type, round min and max to the nearest integers
 	if mustBeAnInteger {
 		// If min and max are both non-integer values and round to the same integer
-		if math.Floor(min) == math.Floor(max) {
+		if math.Floor(min) == math.Floor(max) && math.Ceil(min) != math.Floor(max) {
 			return 0, 0, fmt.Errorf("minimum and maximum do not allow for any integers (min: %f, max: %f)", min, max)
 		}
 
-- 
2.43.0


From 9376726d21d648bbe2b9db6f0dc3721ac5b1299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 03/98] fix: accept bounds whose only multiple of multipleOf is
 the minimum

---
 number.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/number.go b/number.go
index 7af56e4..ad33a1e 100644
--- a/number.go
+++ b/number.go
@@ -153,6 +153,11 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 
 		multiplesInRange := countMultiplesInRange(min, max, multipleOf)
 
+		// The count leaves out a multiple that sits exactly on the minimum
+		if only := util.Round(math.Ceil(min/multipleOf)*multipleOf, multipleOf); multiplesInRange == 0 && only >= min && only <= max {
+			return only, only, nil
+		}
+
 		if multiplesInRange == 0 {
 			return 0, 0, errors.New("minimum and maximum do not allow for any multiples of multipleOf")
 		}
-- 
2.43.0


From 3e2d64468e5e6b26ab0e61b91d2a6bd166d8d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 04/98] fix: do not reintroduce rounding noise into generated
 multiples

---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index ad33a1e..6e14d1f 100644
--- a/number.go
+++ b/number.go
@@ -233,7 +233,7 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// infinitesimal to eliminate them. Plain floats (no multipleOf) don't
 	// need this — and applying it would destroy sub-infinitesimal values.
 	if g.MultipleOf != 0 {
-		return roundToInfinitesimal(result)
+		return util.Round(roundToInfinitesimal(result), g.MultipleOf)
 	}
 
 	return result
-- 
2.43.0


From 4124b8cf05d87bbea0ff21745fcbe26476cc46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 05/98] fix: only replace full stops that match any character
 in patterns

---
 regex.go | 50 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/regex.go b/regex.go
index c5f964b..179dc29 100644
--- a/regex.go
+++ b/regex.go
@@ -6,14 +6,54 @@ import (
 	"github.com/ryanolee/go-chaff/internal/regen"
 )
 
-const fullStringLiteral = "[~{FULL_STOP_LITERAL}~]"
-
 func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generator, error) {
 	if opts.SuppressRandomBytes {
-		pattern = strings.ReplaceAll(pattern, "\\.", fullStringLiteral)
-		pattern = strings.ReplaceAll(pattern, ".", "\\w")
-		pattern = strings.ReplaceAll(pattern, fullStringLiteral, "\\.")
+		pattern = replaceFullStops(pattern, "\\w")
 	}
 
 	return regen.NewGenerator(pattern, opts)
 }
+
+// Replaces every "." that matches any character. Escaped full stops and the ones inside of
+// character classes are literals and so are left as is.
+func replaceFullStops(pattern string, replacement string) string {
+	var sb strings.Builder
+	inClass := false
+	for i := 0; i < len(pattern); i++ {
+		switch {
+		case pattern[i] == '\\' && i+1 < len(pattern):
+			sb.WriteByte(pattern[i])
+			i++
+			sb.WriteByte(pattern[i])
+			continue
+		case inClass && strings.HasPrefix(pattern[i:], "[:"):
+			// Named class such as [:alpha:], its "]" does not close the class
+			if end := strings.Index(pattern[i:], ":]"); end != -1 {
+				sb.WriteString(pattern[i : i+end+2])
+				i += end + 1
+				continue
+			}
+		case inClass && pattern[i] == ']':
+			inClass = false
+		case !inClass && pattern[i] == '[':
+			inClass = true
+			sb.WriteByte(pattern[i])
+			// A leading "]" (or "^]") is a literal
+			if strings.HasPrefix(pattern[i+1:], "^") {
+				i++
+				sb.WriteByte(pattern[i])
+			}
+			if strings.HasPrefix(pattern[i+1:], "]") {
+				i++
+				sb.WriteByte(pattern[i])
+			}
+			continue
+		case !inClass && pattern[i] == '.':
+			sb.WriteString(replacement)
+			continue
+		}
+		sb.WriteByte(pattern[i])
+	}
+
+	return sb.String()
+}
-- 
2.43.0


From 59eee284b1726d60450cf1dfe0975f44c5b67dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 06/98] fix: do not panic on patterns that may match any
 character

---
 internal/regen/internal_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 8bcf5ad..aca2aa9 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -133,7 +133,7 @@ func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenera
 	if args.LimitToAscii {
 		charClass = newCharClass(32, 93) // Limit to printable ASCII characters.
 	} else {
-		charClass = newCharClass(0, rune(math.MaxInt32))
+		charClass = newCharClass(1, rune(math.MaxInt32))
 	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
-- 
2.43.0


From dad7e9cd37d33cb0e7d21f4a3af3b241ba77e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 07/98] fix: honour a maxLength of 0

---
 string.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/string.go b/string.go
index 42bef19..fa52aa2 100644
--- a/string.go
+++ b/string.go
@@ -82,12 +82,21 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("minLength cannot be greater than maxLength")
 	}
 
+	// An explicit maxLength of 0 only allows for the empty string
+	if node.MaxLength != nil && maxLength == 0 && minLength > 0 {
+		return nullGenerator{}, fmt.Errorf("minLength cannot be greater than maxLength")
+	}
+
 	hasPatternBasedBuilder := node.Pattern != nil || node.Format != nil
 	hasSetMinMaxLength := node.MinLength != nil || node.MaxLength != nil
 	if hasPatternBasedBuilder && hasSetMinMaxLength {
 		return nullGenerator{}, fmt.Errorf("cannot have both pattern/format based builder and min/max length set at the same time")
 	}
 
+	if node.MaxLength != nil && maxLength == 0 {
+		return constGenerator{Value: ""}, nil
+	}
+
 	generator := stringGenerator{
 		Format:    stringFormat(util.GetZeroIfNil(node.Format, "")),
 		Pattern:   util.GetZeroIfNil(node.Pattern, ""),
-- 
2.43.0


From 727355645623b6d894b1c83853a08da1bed505ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 08/98] fix: generate required properties that are not declared
 from the schema they fall under

---
 object.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 635f96b..4ca19a3 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -70,6 +71,16 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
 
+	// Required properties that are neither declared nor match a pattern can never be generated
+	if additionalProperties.IsFalse {
+		for _, key := range requiredProperties {
+			_, declared := properties[key]
+			if !declared && !matchesAnyPatternProperty(key, node.PatternProperties) {
+				return nullGenerator{}, fmt.Errorf("required property %s is not allowed by the schema given additional properties are not allowed", key)
+			}
+		}
+	}
+
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
@@ -109,6 +120,22 @@ func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Gener
 	return properties
 }
 
+// Returns true if the given property name matches the given "patternProperties" pattern
+func matchesPatternProperty(key string, pattern string) bool {
+	matched, err := regexp.MatchString(pattern, key)
+	return err == nil && matched
+}
+
+func matchesAnyPatternProperty(key string, patternProperties *map[string]schemaNode) bool {
+	for pattern := range util.GetZeroIfNil(patternProperties, map[string]schemaNode{}) {
+		if matchesPatternProperty(key, pattern) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func parseAdditionalProperties(node schemaNode, metadata *parserMetadata) Generator {
 	if node.AdditionalProperties == nil || node.AdditionalProperties.IsFalse || node.AdditionalProperties.Schema == nil {
 		return nil
@@ -168,7 +195,9 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	generatedValues := make(map[string]interface{})
 	for _, key := range g.Required {
 		// If no properties are defined, generate a nil value
-		if g.Properties == nil {
+		if generator := g.undeclaredPropertyGenerator(key); generator != nil {
+			generatedValues[key] = generator.Generate(opts)
+		} else if g.Properties == nil {
 			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
 		} else if _, ok := g.Properties[key]; !ok {
 			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
@@ -257,6 +286,22 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// Gets the generator that constrains a property that has not been declared in "properties"
+// returns nil if there is not one
+func (g objectGenerator) undeclaredPropertyGenerator(key string) Generator {
+	if _, ok := g.Properties[key]; ok {
+		return nil
+	}
+
+	for pattern, generator := range g.PatternProperties {
+		if matchesPatternProperty(key, pattern) {
+			return generator
+		}
+	}
+
+	return g.AdditionalProperties
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From 437a4340e6b42a44903c39f3956120b79951cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 09/98] fix: only choose optional properties that are not
 already required

---
 object.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 4ca19a3..320c72f 100644
--- a/object.go
+++ b/object.go
@@ -209,7 +209,13 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(g.Required, funk.Keys(g.Properties).([]string)...))
+	optionalKeys := []string{}
+	for _, key := range funk.Keys(g.Properties).([]string) {
+		// Required properties have already been generated
+		if !funk.ContainsString(g.Required, key) {
+			optionalKeys = append(optionalKeys, key)
+		}
+	}
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
-- 
2.43.0


From 086f0b254741cdf53f8402c11e3648f66332a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 10/98] fix: honour a maxProperties of 0

---
 object.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/object.go b/object.go
index 320c72f..f0d2ad9 100644
--- a/object.go
+++ b/object.go
@@ -25,6 +25,9 @@ type (
 		MinProperties int
 		MaxProperties int
 		Required      []string
+
+		// Set when "maxProperties" is explicitly 0
+		DisallowProperties bool
 	}
 )
 
@@ -88,6 +91,8 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		MinProperties: minProperties,
 		MaxProperties: maxProperties,
 
+		DisallowProperties: node.MaxProperties != nil && maxProperties == 0,
+
 		Properties:             parseProperties(node, metadata),
 		PatternProperties:      patternProperties,
 		PatternPropertiesRegex: patternPropertiesRegex,
@@ -193,6 +198,10 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate Required Properties
 	generatedValues := make(map[string]interface{})
+	if g.DisallowProperties {
+		return generatedValues
+	}
+
 	for _, key := range g.Required {
 		// If no properties are defined, generate a nil value
 		if generator := g.undeclaredPropertyGenerator(key); generator != nil {
-- 
2.43.0


From 34bbd55ccbd2ad18c535e127d89c879a20f163e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 11/98] fix: reach minProperties when pattern properties
 produce the same name twice

---
 object.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/object.go b/object.go
index f0d2ad9..ac85a47 100644
--- a/object.go
+++ b/object.go
@@ -283,6 +283,15 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		}
 	}
 
+	// Pattern properties can produce the same name more than once. If they are the only way to reach
+	// the minimum number of properties try again until there are enough of them
+	if len(g.PatternProperties) > 0 && g.DisallowAdditionalProperties {
+		for i := 0; i < opts.MaximumUniqueGeneratorAttempts && len(generatedValues) < min; i++ {
+			regex, value := g.GeneratePatternProperty(opts)
+			generatedValues[regex] = value
+		}
+	}
+
 	// In the event the number of generated parameters due to config options
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
-- 
2.43.0


From 7c1b5ae2d2cdb0c5e50e5233b844fa8286300030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 12/98] fix: do not exceed maxProperties because of the default
 minimum

---
 object.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/object.go b/object.go
index ac85a47..e9e33cb 100644
--- a/object.go
+++ b/object.go
@@ -229,6 +229,11 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
 
+	// The default minimum never takes priority over the maximum set by the schema
+	if g.MaxProperties != 0 && min > g.MaxProperties {
+		min = g.MaxProperties
+	}
+
 	// Make sure the max is always greater than the min
 	if max < min {
 		max = min + max
-- 
2.43.0


From f52467c01d0e0b4cef21505b286c19d9cb399600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 13/98] fix: only keep the types every merged schema allows

---
 merge.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index c71727d..06e3354 100644
--- a/merge.go
+++ b/merge.go
@@ -38,7 +38,11 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedType := mergeSchemaTypes(mergedNode.Type, node.Type)
+		if isConflictingType(mergedNode.Type, mergedType) || isConflictingType(node.Type, mergedType) {
+			warnConfigMergeError(metadata, "type", fmt.Errorf("types do not overlap (%v vs %v)", mergedNode.Type.allowedTypes(), node.Type.allowedTypes()))
+		}
+		mergedNode.Type = mergedType
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
@@ -432,6 +436,12 @@ func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *m
 		return mergedSchemaType
 	}
 
+	// Only keep the types allowed by both sides
+	if shared := intersectTypes(mergedSchemaType.allowedTypes(), nodeType.allowedTypes()); len(shared) > 0 {
+		mergedType := newMultipleTypeFromSlice(shared)
+		return &mergedType
+	}
+
 	mergedType := util.GetZeroIfNil(mergedSchemaType, multipleType{})
 
 	if nodeType.SingleType != "" {
@@ -445,6 +455,39 @@ func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *m
 	return &mergedType
 }
 
+// Gets the types allowed by the "type" keyword. Empty if any type is allowed
+func (m *multipleType) allowedTypes() []string {
+	if m == nil {
+		return nil
+	}
+
+	if m.SingleType != "" {
+		return []string{m.SingleType}
+	}
+
+	return m.MultipleTypes
+}
+
+// intersectTypes returns the types that are allowed by both a and b. Every "integer" is also a "number"
+func intersectTypes(a []string, b []string) []string {
+	shared := []string{}
+	for _, typeName := range a {
+		if funk.ContainsString(b, typeName) || (typeName == typeInteger && funk.ContainsString(b, typeNumber)) {
+			shared = append(shared, typeName)
+		} else if typeName == typeNumber && funk.ContainsString(b, typeInteger) && !funk.ContainsString(a, typeInteger) {
+			shared = append(shared, typeInteger)
+		}
+	}
+
+	return shared
+}
+
+// isConflictingType returns true if none of the merged types are allowed by the given type
+func isConflictingType(nodeType *multipleType, mergedType *multipleType) bool {
+	allowed := nodeType.allowedTypes()
+	return len(allowed) > 0 && len(intersectTypes(allowed, mergedType.allowedTypes())) == 0
+}
+
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
 	if nodeData == nil || nodeData.Node == nil {
-- 
2.43.0


From 0d2c0d6628705b89d3fbb263840a2c97cb0fd4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 14/98] fix: honour a maxItems of 0

---
 array.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 9cc53a2..6102976 100644
--- a/array.go
+++ b/array.go
@@ -23,7 +23,10 @@ type (
 		MaxItems    int
 
 		DisallowAdditional bool
-		schemaNode         schemaNode
+
+		// Set when "maxItems" is explicitly 0
+		DisallowItems bool
+		schemaNode            schemaNode
 	}
 )
 
@@ -67,6 +70,12 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	// An explicit maxItems of 0 only allows for the empty array
+	disallowItems := node.MaxItems != nil && maxItems == 0
+	if disallowItems && (minItems > 0 || minContains > 0) {
+		return nullGenerator{}, fmt.Errorf("minItems and minContains must be 0 given a maxItems of 0 (minItems: %d, minContains: %d)", minItems, minContains)
+	}
+
 	// Validate if tuple makes sense in this context
 	tupleLength := len(prefixItems)
 	if tupleLength > maxItems && node.MaxItems != nil {
@@ -130,6 +139,8 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		MinItems: min,
 		MaxItems: max,
 
+		DisallowItems: disallowItems,
+
 		UniqueItems: util.GetZeroIfNil(node.UniqueItems, false),
 
 		schemaNode: node,
@@ -216,6 +227,9 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	tupleLength := len(g.TupleGenerators)
 	arrayData := make([]interface{}, 0)
+	if g.DisallowItems {
+		return arrayData
+	}
 
 	if tupleLength != 0 {
 		for _, generator := range g.TupleGenerators {
-- 
2.43.0


From b459b8964735bf9f0a7db9ef18b6b96ee2d9fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 15/98] fix: do not accept more items than a closed tuple has

---
 array.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 6102976..ea3ce36 100644
--- a/array.go
+++ b/array.go
@@ -26,7 +26,7 @@ type (
 
 		// Set when "maxItems" is explicitly 0
 		DisallowItems bool
-		schemaNode            schemaNode
+		schemaNode    schemaNode
 	}
 )
 
@@ -90,6 +90,15 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
 	if disallowedAdditionalItems {
+		// Legacy tuples are given by "items" rather than "prefixItems"
+		if node.PrefixItems == nil && node.Items != nil && node.Items.Nodes != nil {
+			tupleLength = len(*node.Items.Nodes)
+		}
+
+		if minItems > tupleLength || minContains > tupleLength {
+			return nullGenerator{}, fmt.Errorf("minItems and minContains must be less than or equal to the tuple length given additional items are not allowed (minItems: %d, minContains: %d, tupleLength: %d)", minItems, minContains, tupleLength)
+		}
+
 		min = tupleLength
 		max = tupleLength
 	}
-- 
2.43.0


From 1c70f0b7831b8eab092e050d508192f517c7732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 16/98] fix: stop adding items once there are no more unique
 ones

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index ea3ce36..3879141 100644
--- a/array.go
+++ b/array.go
@@ -304,7 +304,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
 		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
 
-		if !ok && i > minItems {
+		if !ok && (i > minItems || len(arrayData) >= minItems) {
 			// If we are unable to generate a unique item, and we have already satisfied the minimum
 			// bail out early
 			break
-- 
2.43.0


From 5c5452da7db2ed28911226c766ff8f82831a4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 17/98] fix: apply additionalItems and maxItems to tuples given
 by items

---
 array.go | 11 ++++++-----
 json.go  |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/array.go b/array.go
index 3879141..c987982 100644
--- a/array.go
+++ b/array.go
@@ -78,6 +78,12 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	// Validate if tuple makes sense in this context
 	tupleLength := len(prefixItems)
+
+	// Legacy tuples are given by "items" rather than "prefixItems"
+	if node.PrefixItems == nil && node.Items != nil && node.Items.Nodes != nil {
+		tupleLength = len(*node.Items.Nodes)
+	}
+
 	if tupleLength > maxItems && node.MaxItems != nil {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
@@ -90,11 +96,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
 	if disallowedAdditionalItems {
-		// Legacy tuples are given by "items" rather than "prefixItems"
-		if node.PrefixItems == nil && node.Items != nil && node.Items.Nodes != nil {
-			tupleLength = len(*node.Items.Nodes)
-		}
-
 		if minItems > tupleLength || minContains > tupleLength {
 			return nullGenerator{}, fmt.Errorf("minItems and minContains must be less than or equal to the tuple length given additional items are not allowed (minItems: %d, minContains: %d, tupleLength: %d)", minItems, minContains, tupleLength)
 		}
diff --git a/json.go b/json.go
index fe5b301..ba52025 100644
--- a/json.go
+++ b/json.go
@@ -87,7 +87,9 @@ func (i *itemsData) UnmarshalJSON(data []byte) error {
 	}
 
 	i.Nodes = nodes
-	i.Node = node
+	if nodesErr != nil {
+		i.Node = node
+	}
 	return nil
 }
 
-- 
2.43.0


From 1d3a54620b56a2eca291e8d0f5faf180e9f48995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 18/98] fix: keep items false when merging schemas

---
 merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merge.go b/merge.go
index 06e3354..bf9e234 100644
--- a/merge.go
+++ b/merge.go
@@ -490,6 +490,10 @@ func isConflictingType(nodeType *multipleType, mergedType *multipleType) bool {
 
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
+	if nodeData != nil && nodeData.DisallowAdditionalItems {
+		return nodeData
+	}
+
 	if nodeData == nil || nodeData.Node == nil {
 		return mergedData
 	}
-- 
2.43.0


From 4d9b6b43123fc50d2ce0399b7b3fe19f7a1e228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 19/98] fix: infer arrays from tuples given by items

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 41744f9..270c72b 100644
--- a/parse.go
+++ b/parse.go
@@ -475,7 +475,7 @@ func inferType(node schemaNode) string {
 	}
 
 	// Array Properties
-	hasArrayProps := (node.Items != nil && node.Items.Node != nil) ||
+	hasArrayProps := (node.Items != nil && (node.Items.Node != nil || node.Items.Nodes != nil)) ||
 		node.MinItems != nil ||
 		node.MaxItems != nil ||
 		node.Contains != nil ||
-- 
2.43.0


From 170b5a376f7bfafbf46744e20d36b2476793122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 20/98] fix: do not generate null for the types of a list that
 can not be satisfied

---
 multiple_type.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/multiple_type.go b/multiple_type.go
index 4a7864a..4853cdb 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -21,15 +21,25 @@ type (
 //	}
 func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeGenerator, error) {
 	generators := []Generator{}
+	var lastErr error
 	for _, nodeType := range node.Type.MultipleTypes {
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
+			// The other types can still satisfy the schema
+			lastErr = err
 		} else {
 			generators = append(generators, generator)
 		}
 	}
 
+	if len(generators) == 0 {
+		if lastErr == nil {
+			lastErr = fmt.Errorf("type must list at least one type")
+		}
+
+		return multipleTypeGenerator{generators: []Generator{nullGenerator{}}}, lastErr
+	}
+
 	return multipleTypeGenerator{
 		generators: generators,
 	}, nil
-- 
2.43.0


From 9bb2c50ecad57c0014aa32163499f1b25faa0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 21/98] fix: report unknown types

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 270c72b..74bfe2c 100644
--- a/parse.go
+++ b/parse.go
@@ -414,7 +414,7 @@ func parseType(nodeType string, node schemaNode, metadata *parserMetadata) (Gene
 	case typeNull:
 		return parseNull(node)
 	default:
-		return nullGenerator{}, nil
+		return nullGenerator{}, fmt.Errorf("unknown type: %s", nodeType)
 	}
 }
 
-- 
2.43.0


From 4b4625f1d1aa8daa025a3a725ae75678a7583f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 22/98] fix: check that every if of a schema holds for the
 final value

---
 if.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/if.go b/if.go
index 9bdbf30..7973d04 100644
--- a/if.go
+++ b/if.go
@@ -13,6 +13,8 @@ type (
 		conditionFunc func(value any) bool
 		thenGenerator Generator
 		elseGenerator Generator
+		thenFunc      func(value any) bool
+		elseFunc      func(value any) bool
 	}
 
 	multipleIfConstraints struct {
@@ -139,9 +141,36 @@ func (s ifStatement) Compile(node schemaNode, metadata *parserMetadata, field st
 		},
 		thenGenerator: thenGenerator,
 		elseGenerator: elseGenerator,
+		thenFunc:      compileIfBody(metadata, field+"/then", s.Then),
+		elseFunc:      compileIfBody(metadata, field+"/else", s.Else),
 	}, nil
 }
 
+// Compiles a "then" or "else" schema into a function that validates a value against it
+func compileIfBody(metadata *parserMetadata, field string, bodyNode *schemaNode) func(value any) bool {
+	if bodyNode != nil {
+		bodySchema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *bodyNode, field)
+		if err == nil {
+			return func(value any) bool {
+				return bodySchema.Validate(value) == nil
+			}
+		}
+	}
+
+	return func(value any) bool {
+		return true
+	}
+}
+
+// Returns true if the value is valid against the branch selected by the if condition
+func (g ifConstraint) isSatisfiedBy(value any) bool {
+	if g.conditionFunc(value) {
+		return g.thenFunc(value)
+	}
+
+	return g.elseFunc(value)
+}
+
 // Attempt to satisfy the if constraint by shoving the generated value through the then subschma
 // and attempting to satisfy the clause again with the subsequent value.
 // Returns (value, true) if the constraint was satisfied
@@ -213,6 +242,11 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 			}
 		}
 
+		// Satisfying one of the constraints replaces the value the previous ones were satisfied by
+		for _, constraint := range g.constraints {
+			allSatisfied = allSatisfied && constraint.isSatisfiedBy(currentValue)
+		}
+
 		if allSatisfied {
 			return currentValue
 		}
-- 
2.43.0


From 2f8280bb6c7970384555841185afb79b269ac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 23/98] fix: respect uniqueItems for the items of tuples

---
 array.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index c987982..517b888 100644
--- a/array.go
+++ b/array.go
@@ -243,7 +243,8 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	if tupleLength != 0 {
 		for _, generator := range g.TupleGenerators {
-			arrayData = append(arrayData, generator.Generate(opts))
+			item, _ := g.generateConsideringUnique(opts, generator, arrayData)
+			arrayData = append(arrayData, item)
 		}
 	}
 
-- 
2.43.0


From f913ac9655801bd968e4dd7aa4bc7ae7a7dc1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 24/98] fix: keep the validators of schemas with similar paths
 apart

---
 schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schema.go b/schema.go
index 9f7ac42..74b290a 100644
--- a/schema.go
+++ b/schema.go
@@ -14,6 +14,7 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+		resourceCounts     map[string]int
 	}
 
 	internalOnlyLoader struct {
@@ -39,6 +40,7 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	return &schemaManager{
 		rootSchemaCompiler: jsonSchemaCompiler,
 		documentResolver:   resolver,
+		resourceCounts:     make(map[string]int),
 	}, nil
 }
 
@@ -46,6 +48,14 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 // allowing for reference resolutions back into the original schema from any given sub-schema fragment
 func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node schemaNode, field string) (*jsonschemaV6.Schema, error) {
 	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s", parserMetadata.ReferenceHandler.CurrentPath, field))
+
+	// Different schemas can end up with the same sanitised path, keep their resources apart
+	resource := sm.documentResolver.GetCurrentScope() + currentPath
+	sm.resourceCounts[resource]++
+	if count := sm.resourceCounts[resource]; count > 1 {
+		currentPath = fmt.Sprintf("%s__%d", currentPath, count)
+	}
+
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
 	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
 
-- 
2.43.0


From 02909d49d08a59a3c42d9d3640e9142d76437b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 25/98] fix: apply additionalProperties and items of one schema
 to the properties and tuples merged into it

---
 merge.go | 93 ++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 91 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index bf9e234..d1e50c3 100644
--- a/merge.go
+++ b/merge.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -46,13 +47,18 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
-		// Merge object properties
+		// Merge object properties. Properties declared by only one side are subject to the "additionalProperties" of the other side
+		mergedProperties, mergedPatterns := applyAdditionalProperties(metadata, mergedNode, node)
+		node.Properties, node.PatternProperties = applyAdditionalProperties(metadata, node, mergedNode)
+		mergedNode.Properties, mergedNode.PatternProperties = mergedProperties, mergedPatterns
 		mergedNode.Properties = mergeProperties(metadata, mergedNode.Properties, node.Properties)
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
 		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
-		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
+		mergedPrefixItems := applyItems(metadata, mergedNode.PrefixItems, node)
+		node.PrefixItems = applyItems(metadata, node.PrefixItems, mergedNode)
+		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedPrefixItems, node.PrefixItems)
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
@@ -223,6 +229,62 @@ func mergeProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode,
 	return &mergedProperties
 }
 
+// applyAdditionalProperties applies the "additionalProperties" keyword of the other node to the properties
+// and pattern properties of the given node which are not declared by the other node.
+func applyAdditionalProperties(metadata *parserMetadata, node schemaNode, other schemaNode) (*map[string]schemaNode, *map[string]schemaNode) {
+	additional := other.AdditionalProperties
+	if additional == nil || (!additional.IsFalse && additional.Schema == nil) {
+		return node.Properties, node.PatternProperties
+	}
+
+	otherProperties := util.GetZeroIfNil(other.Properties, map[string]schemaNode{})
+	otherPatterns := util.GetZeroIfNil(other.PatternProperties, map[string]schemaNode{})
+
+	apply := func(schemas *map[string]schemaNode, isDeclared func(key string) bool) *map[string]schemaNode {
+		if schemas == nil {
+			return nil
+		}
+
+		applied := map[string]schemaNode{}
+		for key, value := range *schemas {
+			if isDeclared(key) {
+				applied[key] = value
+				continue
+			}
+
+			// Properties that are not allowed by the other node can never be present
+			if additional.IsFalse {
+				continue
+			}
+
+			merged, err := mergeSchemaNodes(metadata, value, *additional.Schema)
+			if err != nil {
+				warnConfigMergeError(metadata, fmt.Sprintf("additionalProperties/%s", key), err)
+			}
+			applied[key] = merged
+		}
+		return &applied
+	}
+
+	properties := apply(node.Properties, func(key string) bool {
+		if _, ok := otherProperties[key]; ok {
+			return true
+		}
+		for pattern := range otherPatterns {
+			if matched, err := regexp.MatchString(pattern, key); err == nil && matched {
+				return true
+			}
+		}
+		return false
+	})
+	patternProperties := apply(node.PatternProperties, func(pattern string) bool {
+		_, ok := otherPatterns[pattern]
+		return ok
+	})
+
+	return properties, patternProperties
+}
+
 // mergePatternProperties merges two sets of pattern properties using the same
 // strategy as mergeProperties.
 func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode, nodePtr *map[string]schemaNode) *map[string]schemaNode {
@@ -248,6 +310,33 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 	return &mergedPatternProperties
 }
 
+// applyItems applies the "items" keyword of the other node to the prefix items that are not covered by
+// the prefix items of the other node.
+func applyItems(metadata *parserMetadata, prefixItems *[]schemaNode, other schemaNode) *[]schemaNode {
+	otherLength := len(util.GetZeroIfNil(other.PrefixItems, []schemaNode{}))
+	if prefixItems == nil || other.Items == nil || len(*prefixItems) <= otherLength {
+		return prefixItems
+	}
+
+	applied := append([]schemaNode{}, (*prefixItems)[:otherLength]...)
+	if other.Items.DisallowAdditionalItems {
+		return &applied
+	}
+
+	for i, item := range (*prefixItems)[otherLength:] {
+		if other.Items.Node != nil {
+			merged, err := mergeSchemaNodes(metadata, item, *other.Items.Node)
+			if err != nil {
+				warnConfigMergeError(metadata, fmt.Sprintf("prefixItems/%d", otherLength+i), err)
+			}
+			item = merged
+		}
+		applied = append(applied, item)
+	}
+
+	return &applied
+}
+
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
 // have an entry at the same index they are recursively merged; otherwise the
 // entry from whichever side has it is kept.
-- 
2.43.0


From d20da21c2e68eb93799c1988958e3626703f8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 26/98] fix: keep anyOf and oneOf of merged schemas independent

---
 combination.go | 12 +++++++++++-
 merge.go       | 26 ++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/combination.go b/combination.go
index 5f18c12..62191b2 100644
--- a/combination.go
+++ b/combination.go
@@ -63,7 +63,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		}
 
 		refPath := fmt.Sprintf("/%s/%d", nodeType, i)
-		generator, err := ref.ParseNodeInScope(refPath, mergedNode, metadata, subSchema)
+		generator, err := ref.ParseNodeInScope(refPath, mergedNode, metadata, withAllOfBranches(subSchema)...)
 
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to parse %s sub-schema: %w", nodeType, err))
@@ -113,6 +113,16 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	}, nil
 }
 
+// Gets a node together with all of the (nested) allOf branches it is combined from
+func withAllOfBranches(node schemaNode) []schemaNode {
+	nodes := []schemaNode{node}
+	for _, branch := range util.GetZeroIfNil(node.AllOf, []schemaNode{}) {
+		nodes = append(nodes, withAllOfBranches(branch)...)
+	}
+
+	return nodes
+}
+
 func (g combinationGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	if opts.ShouldCutoff() {
diff --git a/merge.go b/merge.go
index d1e50c3..a9764bd 100644
--- a/merge.go
+++ b/merge.go
@@ -65,8 +65,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
 		// Merge combinators
-		mergedNode.OneOf = util.MergeSlicePtrs(mergedNode.OneOf, node.OneOf)
-		mergedNode.AnyOf = util.MergeSlicePtrs(mergedNode.AnyOf, node.AnyOf)
+		mergedNode.OneOf = mergeAlternatives(mergedNode.OneOf, node.OneOf)
+		mergedNode.AnyOf = mergeAlternatives(mergedNode.AnyOf, node.AnyOf)
 		mergedNode.AllOf = util.MergeSlicePtrs(mergedNode.AllOf, node.AllOf)
 
 		// Merge conditionals
@@ -285,6 +285,28 @@ func applyAdditionalProperties(metadata *parserMetadata, node schemaNode, other
 	return properties, patternProperties
 }
 
+// mergeAlternatives merges the branches of two "anyOf" (or two "oneOf") keywords that both have to hold. Every branch
+// of one side is paired up with every branch of the other side: One branch of each side matches if and only if
+// one of the pairs does.
+func mergeAlternatives(merged *[]schemaNode, node *[]schemaNode) *[]schemaNode {
+	if node == nil || len(*node) == 0 {
+		return merged
+	}
+
+	if merged == nil || len(*merged) == 0 {
+		return node
+	}
+
+	pairs := []schemaNode{}
+	for _, left := range *merged {
+		for _, right := range *node {
+			pairs = append(pairs, schemaNode{AllOf: &[]schemaNode{left, right}})
+		}
+	}
+
+	return &pairs
+}
+
 // mergePatternProperties merges two sets of pattern properties using the same
 // strategy as mergeProperties.
 func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode, nodePtr *map[string]schemaNode) *map[string]schemaNode {
-- 
2.43.0


From 3007139bb63a370b369fe13b2d16f295a383991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 27/98] fix: generate the first and the last multiple in the
 allowed range

---
 number.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/number.go b/number.go
index 6e14d1f..cd5f850 100644
--- a/number.go
+++ b/number.go
@@ -183,15 +183,23 @@ func countMultiplesInRange(min float64, max float64, multiple float64) int {
 }
 
 func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
-	multiplesInRange := countMultiplesInRange(min, max, multiple)
+	first := math.Ceil(min / multiple)
+	last := math.Floor(max / multiple)
 
-	if multiplesInRange == 0 {
+	// The division might have been rounded on to a multiple that is out of bounds
+	if util.Round(first*multiple, multiple) < min {
+		first++
+	}
+
+	if util.Round(last*multiple, multiple) > max {
+		last--
+	}
+
+	if first > last {
 		return 0
 	}
 
-	lowerBound := math.Floor(min/multiple) * multiple
-	randomMultiple := float64(rand.RandomInt(1, multiplesInRange)) * multiple
-	return lowerBound + randomMultiple
+	return (first + float64(rand.RandomInt(0, int(last-first)+1))) * multiple
 }
 
 func roundToInfinitesimal(f float64) float64 {
-- 
2.43.0


From 7d82d28f6527df74c400ae9abaf9044abefe0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 28/98] fix: resolve local references when merging schemas
 parsed without a base location

---
 document.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index e17130a..8b340e0 100644
--- a/document.go
+++ b/document.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"net/url"
 	"os"
-	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -85,14 +84,14 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 			opts.RelativeTo = "file://" + cwd + "/"
 		}
 
-		resolvedRootDocumentId = filepath.Join(opts.RelativeTo, rootDocumentId)
+		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
 	} else {
 		resolvedRootDocumentId = opts.RelativeTo
 	}
 
 	resolver := &documentResolver{
 		// Setup the root document
-		documentCurrentlyBeingParsedId: opts.RelativeTo,
+		documentCurrentlyBeingParsedId: resolvedRootDocumentId,
 		parsedExternalDocuments: map[string]bool{
 			resolvedRootDocumentId: true,
 		},
-- 
2.43.0


From 1c352551a42cf99228807ae66e67d4b719a0be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 29/98] fix: do not require the same property twice after
 merging schemas

---
 merge.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index a9764bd..8b75c26 100644
--- a/merge.go
+++ b/merge.go
@@ -475,7 +475,10 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	baseNode.Format = util.GetPtr(otherNode.Format, baseNode.Format)
 
 	// Simple slice properties
-	baseNode.Required = util.MergeSlicePtrs(baseNode.Required, otherNode.Required)
+	if required := util.MergeSlicePtrs(baseNode.Required, otherNode.Required); required != nil {
+		uniqueRequired := funk.UniqString(*required)
+		baseNode.Required = &uniqueRequired
+	}
 
 	// Simple boolean properties
 	warnIfBothSetAndAreDifferent(metadata, "uniqueItems", baseNode.UniqueItems, otherNode.UniqueItems)
-- 
2.43.0


From fe9dd88bb0b96451cca6b55a94d7afd6851ec710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 30/98] fix: drop pattern properties that can not be present
 after merging schemas

---
 merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merge.go b/merge.go
index 8b75c26..c1bac91 100644
--- a/merge.go
+++ b/merge.go
@@ -282,6 +282,10 @@ func applyAdditionalProperties(metadata *parserMetadata, node schemaNode, other
 		return ok
 	})
 
+	if patternProperties != nil && len(*patternProperties) == 0 {
+		patternProperties = nil
+	}
+
 	return properties, patternProperties
 }
 
-- 
2.43.0


From f00a87326704289180034cb98b3c102c4fe1b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 31/98] fix: keep additionalProperties and additionalItems true
 when compiling validators

---
 json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.go b/json.go
index ba52025..b9a429f 100644
--- a/json.go
+++ b/json.go
@@ -141,7 +141,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 		return json.Marshal(s.Schema)
 	}
 
-	return []byte("null"), nil
+	return []byte("true"), nil
 }
 
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
-- 
2.43.0


From 230ccdb698b4b0644c7ff05466c61f1e164a1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 32/98] fix: respect if and not of merged schemas in validators

---
 json.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/json.go b/json.go
index b9a429f..ffed316 100644
--- a/json.go
+++ b/json.go
@@ -170,3 +170,28 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 
 	return nil
 }
+
+// Statements collected by merging schemas are not part of the keywords of a node. Write them as allOf
+// so that validators compiled from a merged node respect them.
+func (s schemaNode) MarshalJSON() ([]byte, error) {
+	type schemaNodeAlias schemaNode
+
+	if len(s.mergedIf) > 0 || len(s.mergedNot) > 0 {
+		allOf := []schemaNode{}
+		if s.AllOf != nil {
+			allOf = append(allOf, *s.AllOf...)
+		}
+
+		for _, statement := range s.mergedIf {
+			allOf = append(allOf, schemaNode{If: statement.If, Then: statement.Then, Else: statement.Else})
+		}
+
+		for _, not := range s.mergedNot {
+			allOf = append(allOf, schemaNode{Not: not})
+		}
+
+		s.AllOf = &allOf
+	}
+
+	return json.Marshal(schemaNodeAlias(s))
+}
-- 
2.43.0


From 3426422ded29795c39462db3fc56a44a62d9ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 33/98] fix: leave out contradicting pairs of merged anyOf and
 oneOf branches

---
 combination.go | 23 ++++++++++++++++++++---
 error.go       | 13 +++++++++++++
 merge.go       |  2 +-
 parse.go       |  4 ++++
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/combination.go b/combination.go
index 62191b2..752610f 100644
--- a/combination.go
+++ b/combination.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"fmt"
+	"reflect"
 	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -46,6 +47,7 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	generators := []Generator{}
 
 	for i, subSchema := range target {
+		knownErrors := metadata.Errors.CopyErrors()
 		baseNode, _ := mergeSchemaNodes(metadata, node)
 		// Stop infinite recursion during merge
 		if nodeType == "oneOf" {
@@ -58,7 +60,9 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
 		if err != nil {
-			generators = append(generators, nullGenerator{})
+			if !subSchema.isAlternativePair {
+				generators = append(generators, nullGenerator{})
+			}
 			continue
 		}
 
@@ -71,13 +75,28 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		} else {
 			generators = append(generators, generator)
 		}
+
+		if subSchema.isAlternativePair && !reflect.DeepEqual(knownErrors, metadata.Errors.Errors) {
+			metadata.Errors.Errors = knownErrors
+			generators = generators[:len(generators)-1]
+		}
+	}
+
+	if len(generators) == 0 {
+		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
 	}
 
 	if len(oneOf) > 1 {
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
 		for i, node := range oneOf {
+			knownErrors := metadata.Errors.CopyErrors()
 			resolvedNode, err := mergeSchemaNodes(metadata, node)
+			if node.isAlternativePair && !reflect.DeepEqual(knownErrors, metadata.Errors.Errors) {
+				metadata.Errors.Errors = knownErrors
+				continue
+			}
+
 			if err != nil {
 				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
 				continue
@@ -103,8 +122,6 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 	if len(generators) == 1 {
 		return generators[0], nil
-	} else if len(generators) == 0 {
-		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
 	}
 
 	return combinationGenerator{
diff --git a/error.go b/error.go
index 6dbec19..8826904 100644
--- a/error.go
+++ b/error.go
@@ -41,6 +41,19 @@ func (ec *errorCollection) HasErrors() bool {
 	return len(ec.Errors) > 0
 }
 
+// CopyErrors copies the errors collected so far, so that they can be compared with or restored later on
+func (ec *errorCollection) CopyErrors() map[string]map[string]error {
+	errors := make(map[string]map[string]error)
+	for document, documentErrors := range ec.Errors {
+		errors[document] = make(map[string]error)
+		for path, err := range documentErrors {
+			errors[document][path] = err
+		}
+	}
+
+	return errors
+}
+
 func (ec *errorCollection) CollectErrors() map[string]error {
 	flattenedErrors := make(map[string]error)
 
diff --git a/merge.go b/merge.go
index c1bac91..263c125 100644
--- a/merge.go
+++ b/merge.go
@@ -304,7 +304,7 @@ func mergeAlternatives(merged *[]schemaNode, node *[]schemaNode) *[]schemaNode {
 	pairs := []schemaNode{}
 	for _, left := range *merged {
 		for _, right := range *node {
-			pairs = append(pairs, schemaNode{AllOf: &[]schemaNode{left, right}})
+			pairs = append(pairs, schemaNode{AllOf: &[]schemaNode{left, right}, isAlternativePair: true})
 		}
 	}
 
diff --git a/parse.go b/parse.go
index 74bfe2c..b1ddb7e 100644
--- a/parse.go
+++ b/parse.go
@@ -171,6 +171,10 @@ type (
 		// (not(A) AND not(B) is NOT the same as not(merge(A, B))).
 		mergedNot []*schemaNode
 
+		// Set for nodes that pair up the branches of two merged "anyOf" or "oneOf" keywords. Branches of
+		// different keywords may contradict each other, such a pair can not be chosen.
+		isAlternativePair bool
+
 		// Internal map used to keep track of constraints that need to be applied to this node during parsing
 		constraints *constraintCollection
 	}
-- 
2.43.0


From d3761e90aa7dfa7d841b8bdaaee4dc02906fbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 34/98] fix: never return values that match a negated schema

---
 constraint.go | 14 ++++++++++++++
 not.go        | 23 +++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/constraint.go b/constraint.go
index 4e3ac90..c115dff 100644
--- a/constraint.go
+++ b/constraint.go
@@ -44,6 +44,9 @@ type (
 
 		// Property based constraints
 		mustNotHaveProperties []string
+
+		// Schemas that the generated value must not be valid against
+		notMatchingSchemas []*jsonschemaV6.Schema
 	}
 
 	constraint interface {
@@ -102,6 +105,10 @@ func (cc *constraintCollection) AddMustNotHaveProperties(properties []string) {
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, properties...)
 }
 
+func (cc *constraintCollection) AddNotMatchingSchemaConstraint(schema *jsonschemaV6.Schema) {
+	cc.notMatchingSchemas = append(cc.notMatchingSchemas, schema)
+}
+
 // Merge incorporates all constraints from another constraintCollection into this one.
 func (cc *constraintCollection) Merge(other *constraintCollection) {
 	if other == nil {
@@ -117,6 +124,7 @@ func (cc *constraintCollection) Merge(other *constraintCollection) {
 		cc.notValueConstraints[k] = v
 	}
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, other.mustNotHaveProperties...)
+	cc.notMatchingSchemas = append(cc.notMatchingSchemas, other.notMatchingSchemas...)
 }
 
 func (cc *constraintCollection) String() string {
@@ -172,6 +180,12 @@ func (mc *constraintCollection) Compile() *multiConstraint {
 		}
 	}
 
+	for i, schema := range mc.notMatchingSchemas {
+		constraintFunctions[fmt.Sprintf("NotSchema: %d", i)] = func(value interface{}) bool {
+			return schema.Validate(value) != nil
+		}
+	}
+
 	return &multiConstraint{functions: constraintFunctions}
 }
 
diff --git a/not.go b/not.go
index 441274f..d6a2953 100644
--- a/not.go
+++ b/not.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -88,6 +89,9 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	// Not every negation can be expressed by the merged node, so make sure that none of the negated schemas match
+	addNotSchemaConstraints(metadata, notNodes, &allConstraints)
+
 	return constrainedGenerator{
 		internalGenerator: internalGenerator,
 		constraints: []constraint{
@@ -161,6 +165,25 @@ func applyNotConstraints(metadata *parserMetadata, baseNode schemaNode, notNodes
 	return currentNode, allConstraints
 }
 
+// addNotSchemaConstraints makes the constraints reject all values that are valid against one of the not nodes
+func addNotSchemaConstraints(metadata *parserMetadata, notNodes []schemaNode, constraints *constraintCollection) {
+	for i, notNode := range notNodes {
+		// Formats are not asserted by compiled schemas, they are handled by the format constraints
+		if strings.Contains(util.MarshalJsonToString(notNode), `"format":`) {
+			continue
+		}
+
+		path := fmt.Sprintf("/not/%d", i)
+		schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, notNode, path)
+		if err != nil {
+			warnField(metadata, path, fmt.Errorf("failed to compile not sub schema: %w", err))
+			continue
+		}
+
+		constraints.AddNotMatchingSchemaConstraint(schema)
+	}
+}
+
 // Merges two nodes, one with candidate
 func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (schemaNode, *constraintCollection) {
 	var newNode schemaNode
-- 
2.43.0


From 2682f5e102cc7fff5bc9c1dcf4e3436d2ddd9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 35/98] fix: keep the bounds when not leaves no multiples

---
 not.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/not.go b/not.go
index d6a2953..849265e 100644
--- a/not.go
+++ b/not.go
@@ -356,18 +356,18 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		max := util.GetZeroIfNil(max, upperBound)
 
 		validValues, err := computeValidMultipleOfValues(metadata, min, max, multipleOf, notMultipleOf)
-		if err != nil && alturnateMin != nil || alturnateMax != nil {
+		if err != nil && (alturnateMin != nil || alturnateMax != nil) {
 			alturnateMinVal := util.GetZeroIfNil(alturnateMin, lowerBound)
 			alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
 
 			validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+		}
 
-			// In the event both upper bound computations fail, we warn and exit given there is not
-			// more we can reasonably do to find valid values
-			if err != nil {
-				warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
-				return nil
-			}
+		// In the event no values could be computed the bounds are kept as they are
+		// and the negated schema gets enforced after generating
+		if err != nil {
+			newNode.MultipleOf = node.MultipleOf
+			return nil
 		}
 
 		newNode.MultipleOf = nil
-- 
2.43.0


From 55fcc7992ec65760f41c65e24b4059fbc20604e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 36/98] fix: accept a const that is not among the negated enum
 values

---
 not.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 849265e..7ab8a01 100644
--- a/not.go
+++ b/not.go
@@ -432,8 +432,9 @@ func notApplyEnum(metadata *parserMetadata, newNode *schemaNode, constraintColle
 		constJsonData := util.MarshalJsonToString(node.Const)
 		if funk.ContainsString(notEnumJsonData, constJsonData) {
 			warnField(metadata, "not/enum", fmt.Errorf("cannot have 'not/enum' contain the same value as 'const'"))
-			return nil
 		}
+
+		return nil
 	}
 
 	enumJsonData := util.SafeMarshalListToJsonList(node.Enum)
-- 
2.43.0


From bcc90a43a4fcfa1d5b308d52702b74319e191c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 37/98] fix: keep additional property schemas when not adds
 properties

---
 not.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 7ab8a01..5e0ca8f 100644
--- a/not.go
+++ b/not.go
@@ -570,10 +570,15 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 			continue
 		}
 
+		baseNode, allowed := getNotPropertyBaseNode(node, propertyKey)
+		if !allowed {
+			continue
+		}
+
 		mergedProperties[propertyKey] = notMergeSubNode(
 			fmt.Sprintf("/not/properties/%s", propertyKey),
 			metadata,
-			util.GetObjectKeyOrDefault(node.Properties, propertyKey, schemaNode{}),
+			baseNode,
 			util.GetObjectKeyOrDefault(notNode.Properties, propertyKey, schemaNode{}),
 		)
 	}
@@ -634,6 +639,29 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 	return nil
 }
 
+// getNotPropertyBaseNode gets the schema a property has to match when the negated schema gets applied to it.
+// False is returned for properties that can not be added to the object.
+func getNotPropertyBaseNode(node schemaNode, propertyKey string) (schemaNode, bool) {
+	if property, ok := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})[propertyKey]; ok {
+		return property, true
+	}
+
+	// Pattern properties apply to some of the undeclared properties only
+	if len(util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})) > 0 {
+		return schemaNode{}, false
+	}
+
+	if node.AdditionalProperties == nil {
+		return schemaNode{}, true
+	}
+
+	if node.AdditionalProperties.IsFalse {
+		return schemaNode{}, false
+	}
+
+	return util.GetZeroIfNil(node.AdditionalProperties.Schema, schemaNode{}), true
+}
+
 func applyUnsupportedNotFields(metadata *parserMetadata, newNode *schemaNode, constraintCollection *constraintCollection, node schemaNode, notNode schemaNode) error {
 	// Unsupported fields
 	warnUnsupportedField(metadata, "not/dependentRequired", func() bool {
-- 
2.43.0


From df38aea4853bda42d14bc2ad175ae30f9e045fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 38/98] fix: keep the bounds of enums when not excludes
 multiples

---
 not.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/not.go b/not.go
index 5e0ca8f..db1f9ae 100644
--- a/not.go
+++ b/not.go
@@ -344,6 +344,9 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		warnField(metadata, "not/multipleOf", fmt.Errorf("not/multipleOf cannot be a multiple of multipleOf"))
 	} else if notMultipleOf != 0 && notMultipleOf <= infinitesimal {
 		warnField(metadata, "not/multipleOf", fmt.Errorf("multipleOf is too small to enforce in a Not Clause"))
+	} else if notMultipleOf != 0 && (node.Enum != nil || node.Const != nil) {
+		// The values are already given, so the bounds have to be kept in order to filter them
+		newNode.MultipleOf = node.MultipleOf
 	} else if notMultipleOf != 0 {
 		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
 		// in order to create a valid range of values that can be generated.
-- 
2.43.0


From 2d3fb1aa587750556da8670aad3304166b87fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 39/98] fix: accept minContains above minItems

---
 array.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/array.go b/array.go
index 517b888..9f738e1 100644
--- a/array.go
+++ b/array.go
@@ -62,10 +62,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
-	if err := assertLowerUpperBound(minContains, minItems, "minContains", "minItems"); err != nil {
-		return nullGenerator{}, err
-	}
-
 	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
@@ -88,7 +84,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
 
-	min := util.GetInt(minItems, minContains)
+	min := util.MaxInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
 	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
-- 
2.43.0


From 07260fd398d308db09bbf727f8e514a597061636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 40/98] fix: merge multipleOf to the least common multiple

---
 internal/util/util.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 5eb7fee..f946be3 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -210,11 +210,16 @@ func FindHcf(a *float64, b *float64) *float64 {
 
 	// Normalise both to integers
 	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
-	intA := *a * scale
-	intB := *b * scale
+	intA := math.Round(*a * scale)
+	intB := math.Round(*b * scale)
 
-	// Otherwise multiply them
-	*result = (intA * intB) / scale
+	// Otherwise get their least common multiple
+	divisor, remainder := intA, intB
+	for remainder != 0 {
+		divisor, remainder = remainder, math.Mod(divisor, remainder)
+	}
+
+	*result = (intA / divisor) * intB / scale
 	return result
 }
 
-- 
2.43.0


From 8bc7f7883c236088322cb85ea418ef60ed595c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 41/98] fix: resolve reference paths as JSON pointers

Array positions in bounds were refused and the ones out of bounds read,
absent keywords caused nil dereferences, a path ending in a keyword resolved to
the schema holding it and escaped names were not found.
---
 document.go       |  4 +--
 reference_path.go | 83 ++++++++++++++++++++++++-----------------------
 2 files changed, 44 insertions(+), 43 deletions(-)

diff --git a/document.go b/document.go
index 8b340e0..ceb9d2d 100644
--- a/document.go
+++ b/document.go
@@ -283,7 +283,7 @@ func (r *documentResolver) ResolvePath(metadata *parserMetadata, ref string) (*s
 
 	// If we have no document, it is a local or relative reference and can be handled as such
 	if !hasDocument || documentID == "" {
-		subNode, err := resolveSubReferencePath(r.documents[r.GetCurrentScope()], path, "")
+		subNode, err := resolveReferencePath(r.documents[r.GetCurrentScope()], path)
 		if err != nil {
 			return nil, "", fmt.Errorf("failed to resolve sub-reference path '%s' in document '%s': %w", path, r.GetCurrentScope(), err)
 		}
@@ -304,7 +304,7 @@ func (r *documentResolver) ResolvePath(metadata *parserMetadata, ref string) (*s
 		}
 	}
 
-	subNode, err := resolveSubReferencePath(document, resolvedPath, "")
+	subNode, err := resolveReferencePath(document, resolvedPath)
 	if err != nil {
 		return nil, "", fmt.Errorf("failed to resolve sub-reference path '%s' in document '%s': %w", resolvedPath, resolvedDocId, err)
 	}
diff --git a/reference_path.go b/reference_path.go
index 7c4a2bc..8b4b3bc 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -2,33 +2,38 @@ package chaff
 
 import (
 	"fmt"
-	"regexp"
+	"net/url"
 	"strconv"
 	"strings"
 )
 
 // Based on a reference path and a schema node, resolve the schema node at the reference path
 func resolveReferencePath(node *schemaNode, refPath string) (*schemaNode, error) {
-	if refPath == "" {
+	pointer := strings.TrimPrefix(refPath, "#")
+	if pointer == "" {
 		return node, nil
 	}
 
-	return resolveSubReferencePath(node, refPath, "")
+	if !strings.HasPrefix(pointer, "/") {
+		return nil, fmt.Errorf("[%s] Invalid reference path", refPath)
+	}
+
+	return resolveSubReferencePath(node, strings.Split(pointer[1:], "/"), "#")
 }
 
-// Recursively resolve a reference path based on a schema node (Internally used by resolveReferencePath)
-func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath string) (*schemaNode, error) {
+// Recursively resolve the tokens of a reference path based on a schema node (Internally used by resolveReferencePath)
+func resolveSubReferencePath(node *schemaNode, path []string, resolvedPath string) (*schemaNode, error) {
 	if node == nil {
 		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
 	}
 
-	pathPart, path := getReferencePathToken(refPath)
-	resolvedPath = resolvedPath + "/" + pathPart
-
-	if path == "" {
+	if len(path) == 0 {
 		return node, nil
 	}
 
+	pathPart, path := path[0], path[1:]
+	resolvedPath = resolvedPath + "/" + pathPart
+
 	switch pathPart {
 	// Object
 	case "properties":
@@ -36,17 +41,15 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "patternProperties":
 		return resolveReferenceProperty(node.PatternProperties, path, resolvedPath)
 	case "additionalProperties":
-		if node.AdditionalProperties.IsFalse {
-			return nil, fmt.Errorf("[%s] No schema node for additional properties", resolvedPath)
-		}
-
-		return resolveSubReferencePath(node.AdditionalProperties.Schema, path, resolvedPath)
+		return resolveFalseOrSchema(node.AdditionalProperties, path, resolvedPath)
 
 	// Array
 	case "items":
-		part, _ := getReferencePathToken(path)
-		match, err := regexp.MatchString(`^\d+$`, part)
-		if !match || err != nil {
+		if node.Items == nil {
+			return nil, fmt.Errorf("[%s] No schema node for items", resolvedPath)
+		}
+
+		if node.Items.Node != nil {
 			return resolveSubReferencePath(node.Items.Node, path, resolvedPath)
 		}
 
@@ -84,31 +87,32 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "$defs":
 		return resolveReferenceProperty(node.Defs, path, resolvedPath)
 
-	// Root
-	case "#":
-		return resolveSubReferencePath(node, path, resolvedPath)
 	default:
 		return nil, fmt.Errorf("[%s] Invalid reference path", resolvedPath)
 	}
 }
 
-func resolveFalseOrSchema(node *schemaNodeOrFalse, path string, resolvedPath string) (*schemaNode, error) {
-	if node.IsFalse {
-		return nil, fmt.Errorf("[%s] No schema node for %s node is false", resolvedPath, path)
+func resolveFalseOrSchema(node *schemaNodeOrFalse, path []string, resolvedPath string) (*schemaNode, error) {
+	if node == nil || node.IsFalse {
+		return nil, fmt.Errorf("[%s] No schema node, it is absent or false", resolvedPath)
 	}
 
 	return resolveSubReferencePath(node.Schema, path, resolvedPath)
 }
 
 // Resolve a reference property based on a map of schema nodes
-func resolveReferenceProperty(nodes *map[string]schemaNode, path string, resolvedPath string) (*schemaNode, error) {
-	if nodes == nil {
+func resolveReferenceProperty(nodes *map[string]schemaNode, path []string, resolvedPath string) (*schemaNode, error) {
+	if nodes == nil || len(path) == 0 {
 		return nil, fmt.Errorf("[%s] No properties defined", resolvedPath)
 	}
 
-	propertyName, path := getReferencePathToken(path)
+	propertyName, path := path[0], path[1:]
 	resolvedPath = resolvedPath + "/" + propertyName
-	node, ok := (*nodes)[propertyName]
+	node, ok := (*nodes)[unescapeReferenceToken(propertyName)]
+	if !ok {
+		node, ok = (*nodes)[propertyName]
+	}
+
 	if !ok {
 		return nil, fmt.Errorf("[%s] Property %s not found", resolvedPath, propertyName)
 	}
@@ -117,35 +121,32 @@ func resolveReferenceProperty(nodes *map[string]schemaNode, path string, resolve
 }
 
 // Resolve a reference based on a slice of schema nodes and a path
-func resolveReferenceSlice(nodes *[]schemaNode, path string, resolvedPath string) (*schemaNode, error) {
-	if nodes == nil {
+func resolveReferenceSlice(nodes *[]schemaNode, path []string, resolvedPath string) (*schemaNode, error) {
+	if nodes == nil || len(path) == 0 {
 		return nil, fmt.Errorf("[%s] No array items defined", resolvedPath)
 	}
 
-	part, itemPath := getReferencePathToken(path)
+	part, path := path[0], path[1:]
 	resolvedPath = resolvedPath + "/" + part
 	partInt, err := strconv.Atoi(part)
 	if err != nil {
 		return nil, fmt.Errorf("[%s] Invalid array index (Must be a number) %s", resolvedPath, part)
 	}
 
-	if len(*nodes) > partInt || partInt < 0 {
+	if partInt < 0 || partInt >= len(*nodes) {
 		return nil, fmt.Errorf("[%s] Array index out of bounds %d", resolvedPath, partInt)
 	}
 
-	node := &(*nodes)[partInt]
-
-	return resolveSubReferencePath(node, itemPath, resolvedPath)
+	return resolveSubReferencePath(&(*nodes)[partInt], path, resolvedPath)
 }
 
-var pathDeliminator = regexp.MustCompile(`\/`)
+var tokenUnescaper = strings.NewReplacer("~1", "/", "~0", "~")
 
-// Get the first token of a reference path and the rest of the path
-func getReferencePathToken(pathRef string) (string, string) {
-	if !strings.Contains(pathRef, "/") {
-		return pathRef, ""
+// Reference tokens are percent encoded (as part of a URI) and escape "/" and "~" (as part of a JSON pointer)
+func unescapeReferenceToken(token string) string {
+	if unescaped, err := url.PathUnescape(token); err == nil {
+		token = unescaped
 	}
 
-	refPathParts := pathDeliminator.Split(pathRef, 2)
-	return refPathParts[0], refPathParts[1]
+	return tokenUnescaper.Replace(token)
 }
-- 
2.43.0


From e6080faeac9eae86c15637a2824211233385cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 42/98] fix: leave the options given to ParseSchemaFile alone

The base path of the first file became the one of every file parsed with the
same options.
---
 parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index b1ddb7e..afd62a2 100644
--- a/parse.go
+++ b/parse.go
@@ -216,11 +216,12 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	}
 
 	// Resolve relative path base for fetching external documents unless already set
-	if opts.RelativeTo == "" {
-		opts.RelativeTo = "file://" + path
+	fileOpts := *opts
+	if fileOpts.RelativeTo == "" {
+		fileOpts.RelativeTo = "file://" + path
 	}
 
-	return ParseSchema(data, opts)
+	return ParseSchema(data, &fileOpts)
 }
 
 // Parses a Json Schema file at the given path with default options. If there is an error reading the file or
-- 
2.43.0


From 5c3c03ab3dce285228c2d30390543ab85aa18592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 43/98] fix: report references that lead nowhere

A reference without a target yielded a text about it in place of a value.
References are checked once all documents are parsed; targets that were only
parsed merged with other schemas are parsed on their own.
---
 document.go         | 12 +++++++
 parse.go            |  7 ++++-
 reference.go        |  2 ++
 reference_hander.go | 77 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 97 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ceb9d2d..e5dce70 100644
--- a/document.go
+++ b/document.go
@@ -422,6 +422,18 @@ func (r *documentResolver) HasMoreDocumentsToParse() bool {
 	return len(r.externalDocumentsThatNeedParsing) > 0
 }
 
+// Switches to the given document until the returned function is called
+func (r *documentResolver) enterDocument(documentId string) func() {
+	parsedId, resolvedId := r.documentCurrentlyBeingParsedId, r.documentCurrentlyBeingResolvedId
+	r.documentCurrentlyBeingParsedId = documentId
+	r.documentCurrentlyBeingResolvedId = documentId
+
+	return func() {
+		r.documentCurrentlyBeingParsedId = parsedId
+		r.documentCurrentlyBeingResolvedId = resolvedId
+	}
+}
+
 // Parses the next document in the queue
 func (r *documentResolver) ParseNextDocument(metadata *parserMetadata) (string, error) {
 	// Get the next document to parse and remove it from the queue
diff --git a/parse.go b/parse.go
index afd62a2..a22dda0 100644
--- a/parse.go
+++ b/parse.go
@@ -276,7 +276,12 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 	generator, err := parseRoot(node, metadata)
 
-	for metadata.DocumentResolver.HasMoreDocumentsToParse() {
+	for metadata.DocumentResolver.HasMoreDocumentsToParse() || metadata.ReferenceHandler.HasPendingReferences() {
+		if !metadata.DocumentResolver.HasMoreDocumentsToParse() {
+			metadata.ReferenceHandler.ResolveNextPendingReference(metadata)
+			continue
+		}
+
 		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
diff --git a/reference.go b/reference.go
index b9cd8bb..ebd3215 100644
--- a/reference.go
+++ b/reference.go
@@ -38,6 +38,8 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 		return nil, fmt.Errorf("failed to handle deferred reference resolution for ref '%s': %w", *node.Ref, err)
 	}
 
+	metadata.ReferenceHandler.AddPendingReference(documentId, ref)
+
 	return referenceGenerator{
 		Document:         documentId,
 		ReferenceStr:     ref,
diff --git a/reference_hander.go b/reference_hander.go
index 8e35f80..2ab7ac3 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
 )
 
@@ -23,6 +24,18 @@ type (
 		CurrentPath      string
 		References       map[string]map[string]reference
 		Errors           map[string]map[string]error
+
+		// References made by parsed nodes that still have to be checked for an existing target
+		pendingReferences []pendingReference
+		checkedReferences map[string]bool
+	}
+
+	// A reference along with the place it has been made at
+	pendingReference struct {
+		document       string
+		path           string
+		sourceDocument string
+		sourcePath     string
 	}
 
 	// This struct used to track a stack of resolved references
@@ -38,6 +51,8 @@ func newReferenceHandler(documentResolver *documentResolver) *referenceHandler {
 		References:       make(map[string]map[string]reference),
 		Errors:           make(map[string]map[string]error),
 		documentResolver: documentResolver,
+
+		checkedReferences: make(map[string]bool),
 	}
 }
 
@@ -110,6 +125,68 @@ func (h *referenceHandler) Lookup(documentId string, path string) (reference, bo
 	return ref, ok
 }
 
+// Remembers a reference to be checked once all documents are parsed
+func (h *referenceHandler) AddPendingReference(document string, path string) {
+	h.pendingReferences = append(h.pendingReferences, pendingReference{
+		document:       document,
+		path:           path,
+		sourceDocument: h.documentResolver.GetDocumentIdCurrentlyBeingParsed(),
+		sourcePath:     h.CurrentPath,
+	})
+}
+
+func (h *referenceHandler) HasPendingReferences() bool {
+	return len(h.pendingReferences) > 0
+}
+
+// Makes sure that there is a generator for the target of the next pending reference. Targets that have not been parsed on
+// their own (Given they have been merged with other nodes or are reached by another path) are parsed here.
+func (h *referenceHandler) ResolveNextPendingReference(metadata *parserMetadata) {
+	pending := h.pendingReferences[0]
+	h.pendingReferences = h.pendingReferences[1:]
+
+	key := fmt.Sprintf("%s|%s", pending.document, pending.path)
+	if h.checkedReferences[key] {
+		return
+	}
+
+	node, err := resolveReferencePath(h.documentResolver.documents[pending.document], pending.path)
+	if err != nil {
+		defer h.documentResolver.enterDocument(pending.sourceDocument)()
+		defer h.enterPath(pending.sourcePath)()
+		metadata.Errors.AddError(fmt.Errorf("failed to resolve reference to document '%s' with path '%s': %w", pending.document, pending.path, err))
+		return
+	}
+
+	h.checkedReferences[key] = true
+
+	if reference, ok := h.Lookup(pending.document, pending.path); ok && isSameSchemaNode(reference.SchemaNode, *node) {
+		return
+	}
+
+	defer h.documentResolver.enterDocument(pending.document)()
+	defer h.enterPath(pending.path)()
+	metadata.ReferenceResolver.PushRefResolution(pending.document, pending.path)
+	defer metadata.ReferenceResolver.PopRefResolution()
+	_, _ = parseNode(*node, metadata)
+}
+
+// Switches to the given path until the returned function is called
+func (h *referenceHandler) enterPath(path string) func() {
+	previousPath := h.CurrentPath
+	h.CurrentPath = path
+
+	return func() { h.CurrentPath = previousPath }
+}
+
+func isSameSchemaNode(a schemaNode, b schemaNode) bool {
+	if a.constraints != nil || b.constraints != nil {
+		return false
+	}
+
+	return util.MarshalJsonToString(a) == util.MarshalJsonToString(b)
+}
+
 func (r *referenceResolver) PushRefResolution(document string, reference string) {
 	r.resolutions = append(r.resolutions, fmt.Sprintf("%s|%s", document, reference))
 }
-- 
2.43.0


From 8d94ab5fd1b1dce5c2b3c966d13bb1a8cec36d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 44/98] fix: resolve $id references against the $id of the
 document

They were looked up relative to the working directory, and without fetchers any
unknown document was taken for the root document.
---
 document.go | 55 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/document.go b/document.go
index e5dce70..eca76aa 100644
--- a/document.go
+++ b/document.go
@@ -104,15 +104,7 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 
 	// Collect $id aliases from the root document tree so that relative
 	// $ref values (e.g. $ref: "color") can be resolved without I/O.
-	baseURI := resolvedRootDocumentId
-	if rootDocument.Id != nil && isAbsoluteURI(*rootDocument.Id) {
-		baseURI = *rootDocument.Id
-	}
-
-	// Merge into existing idAliases
-	for resolvedId, alias := range collectSubSchemaIds(baseURI, resolvedRootDocumentId, rootDocument) {
-		resolver.idAliases[resolvedId] = alias
-	}
+	resolver.addIdAliases(resolvedRootDocumentId, rootDocument)
 
 	return resolver, nil
 }
@@ -328,31 +320,46 @@ func (r *documentResolver) addDocument(id string, node *schemaNode) {
 	r.parsedExternalDocuments[id] = false
 
 	// Collect $id aliases from the new document tree.
-	baseURI := id
-	if node.Id != nil && isAbsoluteURI(*node.Id) {
-		baseURI = *node.Id
-	}
-	for resolvedId, alias := range collectSubSchemaIds(baseURI, id, node) {
+	r.addIdAliases(id, node)
+}
+
+// Registers the $id values of a document. The $id of the document itself is an alias of the whole document.
+func (r *documentResolver) addIdAliases(documentId string, node *schemaNode) {
+	baseURI := r.getBaseURI(documentId)
+	aliases := collectSubSchemaIds(baseURI, documentId, node)
+	aliases[baseURI] = idAlias{documentId: documentId, path: "#"}
+
+	for resolvedId, alias := range aliases {
 		if _, exists := r.idAliases[resolvedId]; !exists {
 			r.idAliases[resolvedId] = alias
 		}
 	}
 }
 
+// Gets the URI the $id values and references of a document are relative to
+func (r *documentResolver) getBaseURI(documentId string) string {
+	document, ok := r.documents[documentId]
+	if !ok || document == nil || document.Id == nil || !isAbsoluteURI(*document.Id) {
+		return documentId
+	}
+
+	return strings.TrimSuffix(*document.Id, "#")
+}
+
 // collectSubSchemaIds marshals a schema node to a generic map and recursively
 // walks the entire structure looking for "$id" entries. Each found $id is
 // resolved against its nearest ancestor base URI and recorded as an idAlias.
 func collectSubSchemaIds(baseURI string, documentId string, node *schemaNode) map[string]idAlias {
+	result := make(map[string]idAlias)
 	data, err := json.Marshal(node)
 	if err != nil {
-		return nil
+		return result
 	}
 	var raw map[string]interface{}
 	if err := json.Unmarshal(data, &raw); err != nil {
-		return nil
+		return result
 	}
 
-	result := make(map[string]idAlias)
 	baseAtPath := map[string]string{"": baseURI}
 
 	walkSchema(raw, "", func(n map[string]interface{}, path string) {
@@ -493,16 +500,24 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 func (r *documentResolver) resolveDocumentRef(documentID string, refPath string) (string, string, error) {
 	// Check $id alias table first — resolves bare-name refs like "color"
 	// to the real document + JSON pointer path with no I/O.
-	resolved := resolveRelativeURI(r.GetCurrentScope(), documentID)
-	if resolved != "" {
+	for _, baseURI := range []string{r.getBaseURI(r.GetCurrentScope()), r.GetCurrentScope()} {
+		resolved := resolveRelativeURI(baseURI, documentID)
+		if resolved == "" {
+			continue
+		}
 		if alias, exists := r.idAliases[resolved]; exists {
 			return alias.documentId, composeJsonPointerPaths(alias.path, refPath), nil
 		}
 	}
 
+	// Documents that are known already do not have to be fetched
+	if _, exists := r.documents[documentID]; exists {
+		return documentID, refPath, nil
+	}
+
 	// No alias found — fall back to I/O-based fetchers.
 	if r.HasNoFetchers() {
-		return r.GetCurrentScope(), refPath, nil
+		return "", "", fmt.Errorf("document '%s' is not known and fetching documents is not enabled", documentID)
 	}
 
 	fetcher, err := r.getFetcherForRef(documentID)
-- 
2.43.0


From cb7cd9380f0370f2747044818354ad3e66c69dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 45/98] fix: follow $id and cross document references when
 validating conditions

References to other documents were dropped from the validators of conditions
and $id references were not found.
---
 schema.go | 103 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 74 insertions(+), 29 deletions(-)

diff --git a/schema.go b/schema.go
index 74b290a..56b0c23 100644
--- a/schema.go
+++ b/schema.go
@@ -3,7 +3,6 @@ package chaff
 import (
 	"fmt"
 	"regexp"
-	"strings"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/santhosh-tekuri/jsonschema/v6"
@@ -14,6 +13,9 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+		rootDocumentId     string
+		rootSchema         interface{}
+		addedDocuments     map[string]bool
 		resourceCounts     map[string]int
 	}
 
@@ -33,13 +35,12 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	// unless they are explicitly added to the schema manager by the upper level parser
 	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
 
-	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), util.UnmarshalJsonStringToMap(string(schemaJson))); err != nil {
-		return nil, err
-	}
-
 	return &schemaManager{
 		rootSchemaCompiler: jsonSchemaCompiler,
 		documentResolver:   resolver,
+		rootDocumentId:     resolver.GetCurrentScope(),
+		rootSchema:         util.UnmarshalJsonStringToMap(string(schemaJson)),
+		addedDocuments:     make(map[string]bool),
 		resourceCounts:     make(map[string]int),
 	}, nil
 }
@@ -69,34 +70,78 @@ func (sm *schemaManager) normalisePath(path string) string {
 	return pathSanitiseRegex.ReplaceAllString(path, "_")
 }
 
-// Recursively replaces all $ref values in the schema with links back to the root schema
-func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
-	switch v := data.(type) {
-	case map[string]interface{}:
-		if ref, ok := v["$ref"]; ok {
-			if refStr, ok := ref.(string); ok {
-				if strings.Contains(refStr, "://") {
-					// External cross-document refs (full URLs) can't be resolved
-					// by the internal-only compiler. Strip them so the sub-schema
-					// becomes permissive for that part. The go-chaff parser handles
-					// cross-document resolution separately at the parse level.
-					delete(v, "$ref")
-				} else {
-					v["$ref"] = sm.documentResolver.GetCurrentScope() + refStr
-				}
+// Adds a document to the schema compiler, so that references into it can be followed
+func (sm *schemaManager) addDocument(documentId string) {
+	if sm.addedDocuments[documentId] {
+		return
+	}
+	sm.addedDocuments[documentId] = true
+
+	document := sm.rootSchema
+	if documentId != sm.rootDocumentId {
+		node, ok := sm.documentResolver.documents[documentId]
+		if !ok {
+			var err error
+			if node, err = sm.documentResolver.resolveDocument(documentId); err != nil {
+				return
 			}
 		}
-		for key, value := range v {
-			v[key] = sm.replaceRefs(value)
+
+		document = util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
+	}
+
+	defer sm.documentResolver.enterDocument(documentId)()
+	_ = sm.rootSchemaCompiler.AddResource(documentId, sm.replaceRefs(document))
+}
+
+// Replaces all $ref values in the schema with links to the documents given to the schema compiler
+func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
+	rewriteRefs(data, func(ref string) string {
+		documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(ref)
+		if err != nil {
+			return ref
+		}
+
+		sm.addDocument(documentId)
+		return documentId + path
+	})
+
+	return data
+}
+
+// Recursively rewrites the references of a schema in place. The $id values they may have been relative to are removed
+func rewriteRefs(schema interface{}, rewrite func(ref string) string) {
+	node, ok := schema.(map[string]interface{})
+	if !ok {
+		return
+	}
+
+	if ref, ok := node["$ref"].(string); ok {
+		node["$ref"] = rewrite(ref)
+	}
+	delete(node, "$id")
+
+	for key, value := range node {
+		switch key {
+		// Keywords holding values instead of schemas
+		case "const", "enum", "default", "examples":
+			continue
+		case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
+			subSchemas, _ := value.(map[string]interface{})
+			for _, subSchema := range subSchemas {
+				rewriteRefs(subSchema, rewrite)
+			}
+			continue
 		}
-		return v
-	case []interface{}:
-		for i, item := range v {
-			v[i] = sm.replaceRefs(item)
+
+		if items, ok := value.([]interface{}); ok {
+			for _, item := range items {
+				rewriteRefs(item, rewrite)
+			}
+			continue
 		}
-		return v
-	default:
-		return v
+
+		rewriteRefs(value, rewrite)
 	}
 }
 
-- 
2.43.0


From 058dc9132aa2aeb350945e421fcaa4e10c67c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 46/98] fix: look for references in schemas only

Values of const and enum holding a $ref or $id were taken for schemas: the
values were changed when schemas were merged.
---
 document.go | 53 +++++++++++++------------------------------------
 schema.go   | 57 ++++++++++++++++-------------------------------------
 walk.go     | 26 +++++++++++++++++++++---
 3 files changed, 54 insertions(+), 82 deletions(-)

diff --git a/document.go b/document.go
index eca76aa..c05f000 100644
--- a/document.go
+++ b/document.go
@@ -175,49 +175,24 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 }
 
 func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) (genericNode, error) {
-	for key, value := range genericNode {
-		if key == "$ref" {
-			refStr, ok := value.(string)
-
-			// If the value under $ref is not a string, skip it
-			// for polymorphic schemas that may have non-string $ref values
-			// { "properties": {"$ref": {...}}
-			if !ok {
-				return genericNode, nil
-			}
-
-			documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
-			if err != nil {
-				return genericNode, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
-			}
-
-			// Rewrite the reference to be relative to the given document ID
-			genericNode["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+	var rewriteErr error
+	walkSchema(genericNode, "", func(node map[string]interface{}, _ string) {
+		refStr, ok := node["$ref"].(string)
+		if !ok {
+			return
 		}
 
-		// Recursively traverse nested objects
-		switch v := value.(type) {
-		case map[string]interface{}:
-			rewrittenNode, err := r.rewriteReferencesRelativeToDocumentInGenericNode(v)
-			if err != nil {
-				return genericNode, err
-			}
-			genericNode[key] = rewrittenNode
-		case []interface{}:
-			for i, item := range v {
-				if itemMap, ok := item.(map[string]interface{}); ok {
-					rewrittenItem, err := r.rewriteReferencesRelativeToDocumentInGenericNode(itemMap)
-					if err != nil {
-						return genericNode, err
-					}
-					v[i] = rewrittenItem
-				}
-			}
-			genericNode[key] = v
+		documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
+		if err != nil {
+			rewriteErr = fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
+			return
 		}
-	}
 
-	return genericNode, nil
+		// Rewrite the reference to be relative to the given document ID
+		node["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+	})
+
+	return genericNode, rewriteErr
 }
 
 func (r *documentResolver) SetDocumentBeingResolved(documentId string) {
diff --git a/schema.go b/schema.go
index 56b0c23..f90385e 100644
--- a/schema.go
+++ b/schema.go
@@ -94,57 +94,34 @@ func (sm *schemaManager) addDocument(documentId string) {
 	_ = sm.rootSchemaCompiler.AddResource(documentId, sm.replaceRefs(document))
 }
 
-// Replaces all $ref values in the schema with links to the documents given to the schema compiler
+// Replaces all $ref values in the schema with links to the documents given to the schema compiler. The $id values they may
+// have been relative to are removed.
 func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
-	rewriteRefs(data, func(ref string) string {
+	schema, ok := data.(map[string]interface{})
+	if !ok {
+		return data
+	}
+
+	walkSchema(schema, "", func(node map[string]interface{}, _ string) {
+		delete(node, "$id")
+
+		ref, ok := node["$ref"].(string)
+		if !ok {
+			return
+		}
+
 		documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(ref)
 		if err != nil {
-			return ref
+			return
 		}
 
 		sm.addDocument(documentId)
-		return documentId + path
+		node["$ref"] = documentId + path
 	})
 
 	return data
 }
 
-// Recursively rewrites the references of a schema in place. The $id values they may have been relative to are removed
-func rewriteRefs(schema interface{}, rewrite func(ref string) string) {
-	node, ok := schema.(map[string]interface{})
-	if !ok {
-		return
-	}
-
-	if ref, ok := node["$ref"].(string); ok {
-		node["$ref"] = rewrite(ref)
-	}
-	delete(node, "$id")
-
-	for key, value := range node {
-		switch key {
-		// Keywords holding values instead of schemas
-		case "const", "enum", "default", "examples":
-			continue
-		case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
-			subSchemas, _ := value.(map[string]interface{})
-			for _, subSchema := range subSchemas {
-				rewriteRefs(subSchema, rewrite)
-			}
-			continue
-		}
-
-		if items, ok := value.([]interface{}); ok {
-			for _, item := range items {
-				rewriteRefs(item, rewrite)
-			}
-			continue
-		}
-
-		rewriteRefs(value, rewrite)
-	}
-}
-
 func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error) {
 	return sm.rootSchemaCompiler.Compile(sm.documentResolver.GetCurrentScope() + path)
 }
diff --git a/walk.go b/walk.go
index a6f0dc5..fe16803 100644
--- a/walk.go
+++ b/walk.go
@@ -1,15 +1,35 @@
 package chaff
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
-// WalkSchema recursively visits every JSON object node in a schema tree.
+var tokenEscaper = strings.NewReplacer("~", "~0", "/", "~1")
+
+// WalkSchema recursively visits every schema in a schema tree.
 // The visitor is called for each node, parents before children.
 // path tracks the JSON pointer path (e.g. "/properties/name").
+// Values listed by keywords like "const" or "enum" are not schemas and not visited.
 func walkSchema(node map[string]interface{}, path string, visit func(node map[string]interface{}, path string)) {
 	visit(node, path)
 
 	for key, value := range node {
-		childPath := path + "/" + key
+		childPath := path + "/" + tokenEscaper.Replace(key)
+
+		switch key {
+		case "const", "enum", "default", "examples":
+			continue
+		case "properties", "patternProperties", "$defs", "definitions", "dependentSchemas":
+			// The keys are names and no keywords
+			schemas, _ := value.(map[string]interface{})
+			for name, schema := range schemas {
+				if obj, ok := schema.(map[string]interface{}); ok {
+					walkSchema(obj, childPath+"/"+tokenEscaper.Replace(name), visit)
+				}
+			}
+			continue
+		}
 
 		if obj, ok := value.(map[string]interface{}); ok {
 			walkSchema(obj, childPath, visit)
-- 
2.43.0


From 1be0c1a8ff8d56bcf376d43651a3c4d710cf9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 47/98] fix: limit the parse depth of circular negations

---
 not.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/not.go b/not.go
index db1f9ae..8641bbf 100644
--- a/not.go
+++ b/not.go
@@ -72,8 +72,8 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	if len(notNodes) == 0 {
-		// No single-not nodes remain — parse normally
-		return parseSchemaNode(node, metadata)
+		// No single-not nodes remain — parse normally (Subject to the parse depth limit, the negations might be circular)
+		return parseNode(node, metadata)
 	}
 
 	// Flatten the existing structure
-- 
2.43.0


From 466974bf490e712382a4613992ad59ac56c21fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 48/98] fix: do not exceed the maximum reference depth by one

---
 reference.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index ebd3215..bea4bdd 100644
--- a/reference.go
+++ b/reference.go
@@ -61,7 +61,7 @@ func (g referenceGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	refResolver := &opts.ReferenceResolver
-	if len(refResolver.GetResolutions()) > opts.MaximumReferenceDepth {
+	if len(refResolver.GetResolutions()) >= opts.MaximumReferenceDepth {
 		return fmt.Sprintf("Maximum reference resolution depth of %d exceeded: %s", opts.MaximumReferenceDepth, refResolver.GetFormattedResolutions())
 	}
 
-- 
2.43.0


From 16c67ce88018b82360bcfc3bcd0f747fa008712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 49/98] fix: keep tuples given by items when merging schemas

---
 merge.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/merge.go b/merge.go
index 263c125..c4a4ba1 100644
--- a/merge.go
+++ b/merge.go
@@ -19,6 +19,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
+		node = withPrefixItems(node)
 
 		// If the resolved node contains allOf, flatten it by recursively
 		// merging the allOf sub-schemas into the node. This prevents allOf
@@ -363,6 +364,23 @@ func applyItems(metadata *parserMetadata, prefixItems *[]schemaNode, other schem
 	return &applied
 }
 
+// withPrefixItems rewrites legacy tuples given by "items" and "additionalItems" to "prefixItems" and "items"
+// so that they are merged the same way.
+func withPrefixItems(node schemaNode) schemaNode {
+	if node.PrefixItems != nil || node.Items == nil || node.Items.Nodes == nil || len(*node.Items.Nodes) == 0 {
+		return node
+	}
+
+	node.PrefixItems = node.Items.Nodes
+	node.Items = nil
+	if additional := node.AdditionalItems; additional != nil && (additional.IsFalse || additional.Schema != nil) {
+		node.Items = &itemsData{Node: additional.Schema, DisallowAdditionalItems: additional.IsFalse}
+	}
+	node.AdditionalItems = nil
+
+	return node
+}
+
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
 // have an entry at the same index they are recursively merged; otherwise the
 // entry from whichever side has it is kept.
-- 
2.43.0


From fd458823f20976df24d3176ba334bf0030adf0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 50/98] fix: record an error when the parse depth is exceeded

---
 parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a22dda0..9efba4c 100644
--- a/parse.go
+++ b/parse.go
@@ -306,7 +306,9 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	maxDepth := metadata.ParserOptions.MaxParseDepth
 	if metadata.ParseDepth > maxDepth {
-		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		err := fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		metadata.Errors.AddError(err)
+		return nullGenerator{}, err
 	}
 
 	refHandler := metadata.ReferenceHandler
-- 
2.43.0


From 5ed101c445d8f13418811b4bec9424da2020ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 51/98] fix: report circular references that can not be merged
 with other schemas

---
 merge.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/merge.go b/merge.go
index c4a4ba1..45a8e25 100644
--- a/merge.go
+++ b/merge.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"regexp"
 
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -103,6 +104,11 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 	}
 
+	// Circular references are not inlined and replace all other keywords of a node
+	if mergedNode.Ref != nil && len(nodes) > 1 && !isImpliedByReference(metadata, mergedNode) {
+		warnConfigMergeError(metadata, "$ref", fmt.Errorf("circular reference '%s' can not be merged with other schemas", *mergedNode.Ref))
+	}
+
 	return flattenResidualAllOf(metadata, mergedNode)
 }
 
@@ -145,6 +151,34 @@ func mergeResolveNodeRef(metadata *parserMetadata, node schemaNode) (schemaNode,
 	return node, false
 }
 
+// isImpliedByReference checks if the schema referenced by a node repeats all the other keywords of it
+func isImpliedByReference(metadata *parserMetadata, node schemaNode) bool {
+	if node.constraints != nil {
+		return false
+	}
+
+	ref := node.Ref
+	node.Ref = nil
+	keywords, _ := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node)).(map[string]interface{})
+	if len(keywords) == 0 {
+		return true
+	}
+
+	target, err := mergeResolveReference(metadata, schemaNode{Ref: ref})
+	if err != nil {
+		return false
+	}
+
+	targetKeywords, _ := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(target)).(map[string]interface{})
+	for keyword, value := range keywords {
+		if !reflect.DeepEqual(value, targetKeywords[keyword]) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // collectEnumValues returns the effective set of allowed values for a node.
 // A const is treated as a single-value enum; if both const and enum are
 // present the enum is returned (the const is redundant). Returns nil when
-- 
2.43.0


From fbcb92e2208084f2ea7aa1b00855450060baff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 52/98] fix: report negative limits when the other limit is not
 given

---
 assert.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/assert.go b/assert.go
index 58418ec..8487854 100644
--- a/assert.go
+++ b/assert.go
@@ -6,10 +6,6 @@ import "fmt"
  * Asserts bounds for a given lower and upper bound
  */
 func assertLowerUpperBound(lower int, upper int, lowerName string, upperName string) error {
-	if lower == 0 || upper == 0 {
-		return nil
-	}
-
 	if lower < 0 {
 		return fmt.Errorf("%s must be greater than or equal to 0 (lower: %d)", lowerName, lower)
 	}
@@ -18,6 +14,10 @@ func assertLowerUpperBound(lower int, upper int, lowerName string, upperName str
 		return fmt.Errorf("%s must be greater than or equal to 0 (upper: %d)", upperName, upper)
 	}
 
+	if lower == 0 || upper == 0 {
+		return nil
+	}
+
 	if lower > upper {
 		return fmt.Errorf("%s must be less than or equal to %s (%s: %d, %s: %d)", lowerName, upperName, lowerName, lower, upperName, upper)
 	}
-- 
2.43.0


From 5ee8e4bf53f48252547e97a8340bbce5f21fae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 53/98] fix: report a multipleOf of 0

---
 number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/number.go b/number.go
index cd5f850..02993a3 100644
--- a/number.go
+++ b/number.go
@@ -143,9 +143,9 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	// Validate multipleOf
 	if node.MultipleOf != nil {
 		multipleOf := *node.MultipleOf
-		if multipleOf < 0 {
-			return 0, 0, errors.New("multipleOf cannot be negative")
-		} else if multipleOf != 0 && multipleOf < infinitesimal {
+		if multipleOf <= 0 {
+			return 0, 0, errors.New("multipleOf must be greater than 0")
+		} else if multipleOf < infinitesimal {
 			return 0, 0, fmt.Errorf("multipleOf must be at least %e", infinitesimal)
 		} else if mustBeAnInteger && math.Trunc(multipleOf) != multipleOf {
 			return 0, 0, errors.New("integer type cannot have a non-integer multipleOf")
-- 
2.43.0


From 488012f97eefc53a03213cc103160a31e31a9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 54/98] fix: report unknown types in lists of types

---
 multiple_type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multiple_type.go b/multiple_type.go
index 4853cdb..a9a9912 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -23,6 +23,11 @@ func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeG
 	generators := []Generator{}
 	var lastErr error
 	for _, nodeType := range node.Type.MultipleTypes {
+		if !funk.ContainsString(typeAll, nodeType) {
+			metadata.Errors.AddError(fmt.Errorf("unknown type: %s", nodeType))
+			continue
+		}
+
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
 			// The other types can still satisfy the schema
-- 
2.43.0


From 6bd9f827775a238b546e8f9609538d8146e22dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 55/98] fix: report types without a name

---
 json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json.go b/json.go
index ffed316..8d1493d 100644
--- a/json.go
+++ b/json.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"encoding/json"
+	"errors"
 )
 
 type (
@@ -52,6 +53,10 @@ func (m *multipleType) UnmarshalJSON(data []byte) error {
 		return singleTypeError
 	}
 
+	if singleType == "" && len(multipleTypes) == 0 {
+		return errors.New("type must name at least one type")
+	}
+
 	m.MultipleTypes = multipleTypes
 	m.SingleType = singleType
 
-- 
2.43.0


From b5d070d0fd3d6fc10065f877a9b7e339ac32553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 56/98] fix: report unsupported keywords of merged schemas

---
 merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merge.go b/merge.go
index 45a8e25..8da5104 100644
--- a/merge.go
+++ b/merge.go
@@ -22,6 +22,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
 		node = withPrefixItems(node)
 
+		if err := assertNoUnsupported(node); err != nil {
+			warnConfigMergeError(metadata, "dependencies", err)
+		}
+
 		// If the resolved node contains allOf, flatten it by recursively
 		// merging the allOf sub-schemas into the node. This prevents allOf
 		// from propagating up to the merged result, which would cause
-- 
2.43.0


From 66274138032e591ddc38dbcf2f63f2be259da0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 57/98] fix: report a multipleOf of 0 in merged and negated
 schemas

---
 merge.go | 5 +++++
 not.go   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/merge.go b/merge.go
index 8da5104..5dbf452 100644
--- a/merge.go
+++ b/merge.go
@@ -525,6 +525,11 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	baseNode.Maximum = util.MinFloatPtr(otherNode.Maximum, baseNode.Maximum)
 	baseNode.ExclusiveMinimum = util.MaxFloatPtr(otherNode.ExclusiveMinimum, baseNode.ExclusiveMinimum)
 	baseNode.ExclusiveMaximum = util.MinFloatPtr(otherNode.ExclusiveMaximum, baseNode.ExclusiveMaximum)
+	for _, multipleOf := range []*float64{baseNode.MultipleOf, otherNode.MultipleOf} {
+		if multipleOf != nil && *multipleOf <= 0 {
+			warnConfigMergeError(metadata, "multipleOf", fmt.Errorf("multipleOf must be greater than 0"))
+		}
+	}
 	baseNode.MultipleOf = util.FindHcf(otherNode.MultipleOf, baseNode.MultipleOf)
 
 	// Merge simple string properties
diff --git a/not.go b/not.go
index 8641bbf..46709af 100644
--- a/not.go
+++ b/not.go
@@ -317,6 +317,10 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	newNode.Maximum = max
 
 	// Handle multipleOf
+	if notNode.MultipleOf != nil && *notNode.MultipleOf <= 0 {
+		warnField(metadata, "not/multipleOf", fmt.Errorf("multipleOf must be greater than 0"))
+	}
+
 	multipleOf := util.GetZeroIfNil(node.MultipleOf, 0)
 	notMultipleOf := util.GetZeroIfNil(notNode.MultipleOf, 0)
 
-- 
2.43.0


From 793a2a5faf6517ccc37f3b80f4a68f69ef13a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 58/98] fix: do not panic given option ranges without any
 values

---
 rand/random.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rand/random.go b/rand/random.go
index f4f2692..d7401d2 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -57,8 +57,8 @@ func (sr *RandUtil) Shuffle(in []interface{}) []interface{} {
 
 // Int functions
 func (sr *RandUtil) RandomInt(min int, max int) int {
-	// In the the case that min == max, return min
-	if min == max {
+	// In the the case that there is nothing between min and max, return min
+	if min >= max {
 		return min
 	}
 
-- 
2.43.0


From 59cea89d1af35a22dfb02b52b03b0ce24bb02199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 59/98] fix: return copies of const and enum values

---
 const.go              |  2 +-
 enum.go               |  2 +-
 internal/util/util.go | 21 +++++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/const.go b/const.go
index b97c51f..fa9bd22 100644
--- a/const.go
+++ b/const.go
@@ -39,7 +39,7 @@ func parseConst(node schemaNode, metadata *parserMetadata) (Generator, error) {
 }
 
 func (g constGenerator) Generate(opts *GeneratorOptions) interface{} {
-	return g.Value
+	return util.CopyJsonValue(g.Value)
 }
 
 func (g constGenerator) String() string {
diff --git a/enum.go b/enum.go
index 75048ba..f8dc8b9 100644
--- a/enum.go
+++ b/enum.go
@@ -52,7 +52,7 @@ func parseEnum(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 func (g enumGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
-	return opts.Rand.Choice(g.Values)
+	return util.CopyJsonValue(opts.Rand.Choice(g.Values))
 }
 
 func (g enumGenerator) String() string {
diff --git a/internal/util/util.go b/internal/util/util.go
index f946be3..e0e3305 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -326,3 +326,24 @@ func MapKeysToStringSlice[T any](maps ...*map[string]T) []string {
 
 	return result
 }
+
+// Copies a decoded json value, so that changes made to the maps and slices of
+// the copy are not seen by the holders of the original
+func CopyJsonValue(value interface{}) interface{} {
+	switch typedValue := value.(type) {
+	case map[string]interface{}:
+		result := make(map[string]interface{}, len(typedValue))
+		for key, item := range typedValue {
+			result[key] = CopyJsonValue(item)
+		}
+		return result
+	case []interface{}:
+		result := make([]interface{}, len(typedValue))
+		for i, item := range typedValue {
+			result[i] = CopyJsonValue(item)
+		}
+		return result
+	default:
+		return value
+	}
+}
-- 
2.43.0


From 6b26d1a1088e89eb9d531b9670a36af3fb94ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 60/98] fix: honour the list of allowed paths

---
 fetchers.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 2d47ae3..f723446 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -156,7 +156,8 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("failed to resolve file path for URL '%s' relative to '%s': %w", ref, relativeTo, err)
 	}
 
-	if !f.allowOutsideCwd {
+	// A list of allowed paths takes precedence over the restriction to the current working directory
+	if !f.allowOutsideCwd && len(f.allowedPaths) == 0 {
 		outsideCwd, err := f.isOutsideOfCwd(resolvedPath)
 		if err != nil {
 			return "", fmt.Errorf("failed to check if path '%s' is outside of current working directory: %w", resolvedPath, err)
@@ -169,6 +170,10 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		}
 	}
 
+	if len(f.allowedPaths) == 0 {
+		return "file://" + resolvedPath, nil
+	}
+
 	outsideAllowedPaths, err := isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths)
 	if err != nil {
 		return "", fmt.Errorf("failed to check if path '%s' is outside of allowed paths: %w", resolvedPath, err)
@@ -208,12 +213,12 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	for _, allowedPath := range allowedPaths {
-		matched, err := filepath.Match(filepath.Join(allowedPath, "*"), path)
+		outside, err := isOutsideOfPath(path, allowedPath)
 		if err != nil {
-			return false, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
+			return true, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
 		}
 
-		if !matched {
+		if !outside {
 			return false, nil
 		}
 	}
@@ -221,6 +226,12 @@ func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	return true, nil
 }
 
+// Checks if the given path is neither the given directory nor below of it
+func isOutsideOfPath(path string, directory string) (bool, error) {
+	diff, err := filepath.Rel(directory, path)
+	return diff == ".." || strings.HasPrefix(diff, ".."+string(filepath.Separator)), err
+}
+
 func getRealPath(path string) (string, error) {
 	realPath, err := filepath.Abs(path)
 	if err != nil {
-- 
2.43.0


From 765b47b11e2acc5d9eb431b2dd1dd95c4abc1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 61/98] fix: allow files with two dots in their names

---
 fetchers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index f723446..447e287 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -207,8 +207,7 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 		return false, fmt.Errorf("failed to get current working directory: %w", err)
 	}
 
-	diff, err := filepath.Rel(cwd, path)
-	return strings.Contains(diff, ".."), err
+	return isOutsideOfPath(path, cwd)
 }
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
-- 
2.43.0


From 4a0cc51111f8a37013ba61fbe308269785ac7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 62/98] fix: allow files below a working directory that is
 reached over a symlink

---
 fetchers.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fetchers.go b/fetchers.go
index 447e287..ca50772 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -207,7 +207,13 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 		return false, fmt.Errorf("failed to get current working directory: %w", err)
 	}
 
-	return isOutsideOfPath(path, cwd)
+	// The working directory can be reached over a symlink, the given path has them resolved already
+	realCwd, err := getRealPath(cwd)
+	if err != nil {
+		return false, fmt.Errorf("failed to resolve current working directory '%s': %w", cwd, err)
+	}
+
+	return isOutsideOfPath(path, realCwd)
 }
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
-- 
2.43.0


From 29f61cc0b67cd6f470e276e32b55102e403b3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 63/98] fix: do not panic on references to documents that can
 not be loaded

---
 reference_hander.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reference_hander.go b/reference_hander.go
index 2ab7ac3..a2906fb 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -150,7 +150,13 @@ func (h *referenceHandler) ResolveNextPendingReference(metadata *parserMetadata)
 		return
 	}
 
-	node, err := resolveReferencePath(h.documentResolver.documents[pending.document], pending.path)
+	document, ok := h.documentResolver.documents[pending.document]
+	if !ok || document == nil {
+		// The document could not be loaded, this was reported when it was tried to be parsed
+		return
+	}
+
+	node, err := resolveReferencePath(document, pending.path)
 	if err != nil {
 		defer h.documentResolver.enterDocument(pending.sourceDocument)()
 		defer h.enterPath(pending.sourcePath)()
-- 
2.43.0


From ed91c53d930f5bba2574f64195f250692acd1ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 64/98] fix: fetch relative references the way their own
 document was fetched

---
 document.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index c05f000..87ff244 100644
--- a/document.go
+++ b/document.go
@@ -526,13 +526,13 @@ func (r *documentResolver) getFetcherForRef(documentId string) (documentFetcherI
 	}
 
 	if url.Scheme == "" {
-		url, err = url.Parse(r.documentCurrentlyBeingParsedId)
+		url, err = url.Parse(r.GetCurrentScope())
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.documentCurrentlyBeingParsedId, err)
+			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.GetCurrentScope(), err)
 		}
 
 		if url.Scheme == "" {
-			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.documentCurrentlyBeingParsedId)
+			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.GetCurrentScope())
 		}
 
 	}
-- 
2.43.0


From 3f21f3279ecd627398ad9c7f30166b521d5d2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 65/98] fix: accept URLs in the list of allowed hosts

---
 fetchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetchers.go b/fetchers.go
index ca50772..bd18528 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -41,7 +41,7 @@ func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInter
 	for _, host := range parserConfig.AllowedHosts {
 		parsedUrl, err := url.Parse(host)
 
-		if parsedUrl != nil && err != nil {
+		if err == nil && parsedUrl.Host != "" {
 			allowedHosts = append(allowedHosts, parsedUrl.Host)
 		} else {
 			allowedHosts = append(allowedHosts, host)
-- 
2.43.0


From 9a7eacb7c61a570c1a7b3d12570628699e4db81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 66/98] fix: check redirects against the allowed hosts and
 schemes

---
 fetchers.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index bd18528..c04ccc6 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -31,6 +31,9 @@ type (
 	}
 )
 
+// Number of redirects followed for a document
+const maxRedirects = 10
+
 func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInterface, error) {
 	allowedHosts := []string{}
 
@@ -74,21 +77,41 @@ func (f *httpDocumentFetcher) resolveDocumentId(relativeTo string, ref string) (
 		resolvedUrl = baseUrl.ResolveReference(parsedUrl)
 	}
 
-	if !f.allowInsecure && resolvedUrl.Scheme != "https" {
-		return "", fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", parsedUrl.Scheme, ref)
+	if err := f.checkAllowed(resolvedUrl); err != nil {
+		return "", err
+	}
+
+	return resolvedUrl.String(), nil
+}
+
+// Checks that the scheme and host of a URL are allowed to be fetched from
+func (f *httpDocumentFetcher) checkAllowed(target *url.URL) error {
+	if !f.allowInsecure && target.Scheme != "https" {
+		return fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", target.Scheme, target)
 	}
 
 	if len(f.allowedHosts) > 0 {
-		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {
-			return "", fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
+		if !funk.Contains(f.allowedHosts, target.Host) {
+			return fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", target.Host, strings.Join(f.allowedHosts, ", "))
 		}
 	}
 
-	return resolvedUrl.String(), nil
+	return nil
 }
 
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resp, err := http.Get(resolvedPath)
+	client := &http.Client{
+		// Redirects are only followed to what could have been fetched directly
+		CheckRedirect: func(req *http.Request, via []*http.Request) error {
+			if len(via) >= maxRedirects {
+				return fmt.Errorf("stopped after %d redirects", maxRedirects)
+			}
+
+			return f.checkAllowed(req.URL)
+		},
+	}
+
+	resp, err := client.Get(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch URL '%s': %w", resolvedPath, err)
 	}
-- 
2.43.0


From 3a6c65818a8559603841a2da9a85e9d54f31a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 67/98] fix: resolve references of the own document after
 merging one of another document

---
 merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 5dbf452..69d2654 100644
--- a/merge.go
+++ b/merge.go
@@ -101,10 +101,9 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		if resolvedReference {
-			// Pop the reference resolution and set the document being resolved back to the previous one
+			// Pop the reference resolution and set the document being resolved back to the one the nodes are part of
 			metadata.ReferenceResolver.PopRefResolution()
-			document, _ := metadata.ReferenceResolver.GetCurrentResolution()
-			metadata.DocumentResolver.SetDocumentBeingResolved(document)
+			metadata.DocumentResolver.SetDocumentBeingResolved(metadata.DocumentResolver.GetDocumentIdCurrentlyBeingParsed())
 		}
 	}
 
-- 
2.43.0


From b6b50c6fff2a8449212f6011dc7d8cb3f718fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 68/98] fix: allow string generators to be used concurrently

---
 internal/regen/regen.go |  2 +-
 internal/regen/rng.go   | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/regen/regen.go b/internal/regen/regen.go
index 0afa8f5..c22e983 100644
--- a/internal/regen/regen.go
+++ b/internal/regen/regen.go
@@ -154,7 +154,7 @@ func (a *GeneratorArgs) initialize() error {
 		seed = a.RngSource.Int63()
 	}
 	rngSource := xorShift64Source(seed)
-	a.rng = rand.New(&rngSource)
+	a.rng = rand.New(&lockedSource{src: &rngSource})
 
 	// unicode groups only allowed with Perl
 	if (a.Flags&syntax.UnicodeGroups) == syntax.UnicodeGroups && (a.Flags&syntax.Perl) != syntax.Perl {
diff --git a/internal/regen/rng.go b/internal/regen/rng.go
index 74194b2..9e2b7e5 100644
--- a/internal/regen/rng.go
+++ b/internal/regen/rng.go
@@ -16,6 +16,11 @@ limitations under the License.
 
 package regen
 
+import (
+	"math/rand"
+	"sync"
+)
+
 /*
 The default Source implementation is very slow to seed. Replaced with a
 64-bit xor-shift source from http://vigna.di.unimi.it/ftp/papers/xorshift.pdf.
@@ -46,3 +51,21 @@ func (src *xorShift64Source) Int63() int64 {
 
 	return int64((*src * 2685821657736338717) >> 1)
 }
+
+// lockedSource guards a source, given that generators can be used by multiple goroutines at once
+type lockedSource struct {
+	mu  sync.Mutex
+	src rand.Source
+}
+
+func (src *lockedSource) Seed(seed int64) {
+	src.mu.Lock()
+	defer src.mu.Unlock()
+	src.src.Seed(seed)
+}
+
+func (src *lockedSource) Int63() int64 {
+	src.mu.Lock()
+	defer src.mu.Unlock()
+	return src.src.Int63()
+}
-- 
2.43.0


From 803db2990b1d5c276b2dd199e0e13c8d682844cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 69/98] fix: apply the regex options for pattern properties
 rather than those for strings

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 9efba4c..a17e502 100644
--- a/parse.go
+++ b/parse.go
@@ -446,7 +446,7 @@ func withDefaultParseOptions(opts ParserOptions) ParserOptions {
 	}
 
 	parseOpts.RegexStringOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
-	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
+	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)
 
 	return parseOpts
 }
-- 
2.43.0


From 2f0f00023352c96ee3bd6636827dd05ca0d80d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 70/98] fix: use the default number bounds given by the
 generator options

---
 generator.go |  2 +-
 number.go    | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 30bff00..5265902 100644
--- a/generator.go
+++ b/generator.go
@@ -95,7 +95,7 @@ func withGeneratorOptionsDefaults(options GeneratorOptions) *GeneratorOptions {
 
 		// Number
 		DefaultNumberMinimum: util.GetInt(options.DefaultNumberMinimum, 0),
-		DefaultNumberMaximum: util.GetInt(options.DefaultNumberMaximum, 100),
+		DefaultNumberMaximum: util.GetInt(options.DefaultNumberMaximum, defaultOffset),
 
 		// String
 		DefaultStringMinLength: util.GetInt(options.DefaultStringMinLength, 0),
diff --git a/number.go b/number.go
index 02993a3..05b1b8d 100644
--- a/number.go
+++ b/number.go
@@ -16,6 +16,9 @@ type (
 		Min        float64
 		Max        float64
 		MultipleOf float64
+
+		// Set when the schema sets no bounds, the bounds are given by the generator options then
+		DefaultBounds bool
 	}
 )
 
@@ -61,6 +64,9 @@ func parseNumber(node schemaNode, genType numberGeneratorType) (Generator, error
 		Min:        min,
 		Max:        max,
 		MultipleOf: util.GetZeroIfNil(node.MultipleOf, 0),
+
+		DefaultBounds: node.Minimum == nil && node.Maximum == nil &&
+			node.ExclusiveMinimum == nil && node.ExclusiveMaximum == nil && node.MultipleOf == nil,
 	}, nil
 }
 
@@ -214,6 +220,10 @@ func roundToInfinitesimal(f float64) float64 {
 func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	result := 0.0
+	if g.DefaultBounds && opts.DefaultNumberMinimum < opts.DefaultNumberMaximum {
+		g = &numberGenerator{Type: g.Type, Min: float64(opts.DefaultNumberMinimum), Max: float64(opts.DefaultNumberMaximum)}
+	}
+
 	if g.Type == generatorTypeInteger && g.MultipleOf != 0 {
 		result = float64(generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf))
 	} else if g.Type == generatorTypeInteger && g.MultipleOf == 0 {
-- 
2.43.0


From b0587c3510fb947a5af6c08fb238d34746bd8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 71/98] fix: use the default string lengths given by the
 generator options

---
 string.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/string.go b/string.go
index fa52aa2..ee04ab8 100644
--- a/string.go
+++ b/string.go
@@ -17,6 +17,9 @@ type (
 		PatternGenerator regen.Generator
 		MinLength        int
 		MaxLength        int
+
+		// Set when the length defaults to the bounds given by the generator options
+		DefaultLength bool
 	}
 )
 
@@ -102,6 +105,8 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		Pattern:   util.GetZeroIfNil(node.Pattern, ""),
 		MinLength: minLength,
 		MaxLength: maxLength,
+
+		DefaultLength: true,
 	}
 
 	if node.Pattern != nil {
@@ -126,6 +131,10 @@ func (g stringGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return g.PatternGenerator.Generate()
 	}
 
+	if g.DefaultLength {
+		g.MinLength, g.MaxLength = g.lengthWithDefaults(opts)
+	}
+
 	// Build a string with a single sentence in it
 	var sb strings.Builder
 	sb.Write([]byte(faker.Sentence()))
@@ -143,6 +152,20 @@ func (g stringGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return sb.String()
 }
 
+// Gets the bounds for the length of the string. Bounds set by the schema take priority over the defaults
+func (g stringGenerator) lengthWithDefaults(opts *GeneratorOptions) (int, int) {
+	minLength := util.GetInt(g.MinLength, opts.DefaultStringMinLength)
+	maxLength := util.GetInt(g.MaxLength, util.MaxInt(0, opts.DefaultStringMaxLength))
+
+	if g.MaxLength != 0 && minLength > maxLength {
+		minLength = maxLength
+	} else if minLength > maxLength {
+		maxLength = minLength + maxLength
+	}
+
+	return minLength, maxLength
+}
+
 func (g stringGenerator) String() string {
 	return fmt.Sprintf("StringGenerator[%s, %s]", g.Format, g.Pattern)
 }
-- 
2.43.0


From 2a97e06ae5f45665e921647cf9b097ccfecadb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 72/98] fix: keep arrays within maxItems and the default
 maximum given by the generator options

---
 array.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index 9f738e1..09d7a45 100644
--- a/array.go
+++ b/array.go
@@ -85,7 +85,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	min := util.MaxInt(minItems, minContains)
-	max := util.GetInt(maxItems, min+defaultOffset)
+	max := maxItems
 
 	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
 
@@ -263,7 +263,12 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
-	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
+	maxItems := util.GetInt(g.MaxItems, g.MinItems+opts.DefaultArrayMaxItems)
+
+	// The default minimum never takes priority over the maximum set by the schema
+	if g.MaxItems != 0 && minItems > g.MaxItems {
+		minItems = g.MaxItems
+	}
 
 	// Handle cases where no min items are handled
 	minContains := 0
-- 
2.43.0


From 8ed31eb3d0b76b8179a8754d5555eced0765c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 73/98] fix: ignore the default minimum of properties if there
 are fewer available

---
 object.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/object.go b/object.go
index e9e33cb..f62d10f 100644
--- a/object.go
+++ b/object.go
@@ -297,6 +297,11 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		}
 	}
 
+	// The default minimum is ignored if there are fewer properties available
+	if g.DisallowAdditionalProperties {
+		min = g.MinProperties
+	}
+
 	// In the event the number of generated parameters due to config options
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
-- 
2.43.0


From 8609228b4976fb20745be4292d44c1d9ce8a3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 74/98] fix: generate arrays with as many items as maxItems
 allows

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 09d7a45..4df85cf 100644
--- a/array.go
+++ b/array.go
@@ -295,7 +295,7 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Compute how many items we can generate over the minimum satisfiable set of data)
 	remainingItemsToGenerate := util.MaxInt(0, maxItems-(tupleLength+g.MinContains))
 
-	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate)
+	itemsToGenerate := opts.Rand.RandomInt(0, remainingItemsToGenerate+1)
 
 	// Cull the remaining items if the complexity is too high or unevaluated items are not allowed
 	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {
-- 
2.43.0


From ee933a664eb472cf677f7c048f649923d2500e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 75/98] fix: generate objects with as many properties as
 maxProperties allows

---
 object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object.go b/object.go
index f62d10f..c2b3bc8 100644
--- a/object.go
+++ b/object.go
@@ -242,7 +242,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Required))
 	maximumExtrasToGenerate := util.MaxInt(0, max-len(g.Required))
 
-	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate)
+	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate+1)
 
 	if opts.ShouldMinimize() {
 		generatorTarget = minimumExtrasToGenerate
-- 
2.43.0


From 1fe4ba03b4ed3b0269c37856c6f7d662a9905488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 76/98] fix: apply the fetch flags to schemas read from
 standard input

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index a59bc6c..c654ecb 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -74,7 +74,7 @@ func main() {
 		checkErr(err)
 	} else if hasStdin() {
 		stdin := readStdin()
-		generator, err = chaff.ParseSchemaWithDefaults(stdin)
+		generator, err = chaff.ParseSchema(stdin, parserOptions)
 		checkErr(err)
 	} else {
 		checkErr(fmt.Errorf("no schema specified! (On Stdin or through the --file flag)"))
-- 
2.43.0


From 718b4cc9159632e3094adbc32ec093b21382afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 77/98] fix: fetch nothing over http when no host is allowed

---
 cli/cli.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index c654ecb..906532f 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -122,7 +122,8 @@ func main() {
 }
 
 func getHttpDocumentFetcherOptionsFromFlags(allowedHosts *string, allowInsecure *bool) chaff.HTTPFetchOptions {
-	if (allowedHosts != nil && *allowedHosts == "") && (allowInsecure == nil || !*allowInsecure) {
+	// Without any allowed host nothing may be fetched over HTTP(S), whatever else is allowed
+	if allowedHosts == nil || *allowedHosts == "" {
 		return chaff.HTTPFetchOptions{}
 	}
 
-- 
2.43.0


From 0104bdc3734d71d0509963ba8f415686be1f9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 78/98] fix: do not overflow integers beyond the range of an
 int

---
 number.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 05b1b8d..7dc504d 100644
--- a/number.go
+++ b/number.go
@@ -242,8 +242,11 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return 0.0
 	}
 
-	if g.Type == generatorTypeInteger {
+	// Integers that do not fit in to an int are kept as floats
+	if g.Type == generatorTypeInteger && math.Abs(result) < math.MaxInt64 {
 		return int(result)
+	} else if g.Type == generatorTypeInteger {
+		return result
 	}
 
 	// MultipleOf arithmetic can accumulate tiny floating-point errors that
-- 
2.43.0


From 27700dc1810ababafeddfb067d51c8e5f88bca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 79/98] fix: do not generate properties over declared
 properties and patterns

---
 object.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/object.go b/object.go
index c2b3bc8..3cba094 100644
--- a/object.go
+++ b/object.go
@@ -269,14 +269,13 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
 		for i := 0; i < generatorTarget; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+			g.addPatternProperty(generatedValues, opts)
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
 		for i := 0; i < generatorTarget; i++ {
-			generatedValues[fmt.Sprintf("additional_%d", i)] = g.AdditionalProperties.Generate(opts)
+			g.addUndeclaredProperty(generatedValues, "additional_%d", i, opts)
 		}
 	} else {
 		for i := 0; i < generatorTarget; i++ {
@@ -284,7 +283,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 				continue
 			}
 
-			generatedValues[fmt.Sprintf("fallback_%d", i)] = g.FallbackGenerator.Generate(opts)
+			g.addUndeclaredProperty(generatedValues, "fallback_%d", i, opts)
 		}
 	}
 
@@ -292,8 +291,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// the minimum number of properties try again until there are enough of them
 	if len(g.PatternProperties) > 0 && g.DisallowAdditionalProperties {
 		for i := 0; i < opts.MaximumUniqueGeneratorAttempts && len(generatedValues) < min; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+			g.addPatternProperty(generatedValues, opts)
 		}
 	}
 
@@ -306,13 +304,8 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
 	if len(generatedValues) < min {
-		generator := g.FallbackGenerator
-		if g.AdditionalProperties != nil {
-			generator = g.AdditionalProperties
-		}
-
 		for i := len(generatedValues); i < min; i++ {
-			generatedValues[fmt.Sprintf("min_filler_%d", i)] = generator.Generate(opts)
+			g.addUndeclaredProperty(generatedValues, "min_filler_%d", i, opts)
 		}
 
 	}
@@ -336,6 +329,36 @@ func (g objectGenerator) undeclaredPropertyGenerator(key string) Generator {
 	return g.AdditionalProperties
 }
 
+// Adds a generated property under a name that is neither declared nor taken yet
+func (g objectGenerator) addUndeclaredProperty(values map[string]interface{}, nameFormat string, index int, opts *GeneratorOptions) {
+	key := fmt.Sprintf(nameFormat, index)
+	for {
+		_, declared := g.Properties[key]
+		_, taken := values[key]
+		if !declared && !taken {
+			break
+		}
+
+		index++
+		key = fmt.Sprintf(nameFormat, index)
+	}
+
+	generator := g.undeclaredPropertyGenerator(key)
+	if generator == nil {
+		generator = g.FallbackGenerator
+	}
+
+	values[key] = generator.Generate(opts)
+}
+
+// Adds a property generated from a random pattern, unless its name has been declared in "properties"
+func (g objectGenerator) addPatternProperty(values map[string]interface{}, opts *GeneratorOptions) {
+	key, value := g.GeneratePatternProperty(opts)
+	if _, declared := g.Properties[key]; !declared {
+		values[key] = value
+	}
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From f5ab2b964943475def0a6e5c2393208ae2ac694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 80/98] fix: resolve references in sub-schemas with an $id
 against that $id

---
 document.go | 39 +++++++++++++++++++++++++++++++++++++++
 schema.go   |  7 ++++++-
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 87ff244..974b958 100644
--- a/document.go
+++ b/document.go
@@ -309,6 +309,45 @@ func (r *documentResolver) addIdAliases(documentId string, node *schemaNode) {
 			r.idAliases[resolvedId] = alias
 		}
 	}
+
+	schema, ok := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node)).(map[string]interface{})
+	if !ok || !r.anchorReferences(documentId, schema) {
+		return
+	}
+
+	anchoredNode := schemaNode{}
+	if err := json.Unmarshal([]byte(util.MarshalJsonToString(schema)), &anchoredNode); err == nil {
+		*node = anchoredNode
+	}
+}
+
+// References in a sub-schema with an $id are relative to that $id. The ones that lead to another part of the document
+// are rewritten to be relative to the document itself. Returns if there were any.
+func (r *documentResolver) anchorReferences(documentId string, schema map[string]interface{}) bool {
+	baseAtPath := map[string]string{"": ""}
+	for id, alias := range r.idAliases {
+		if alias.documentId == documentId && alias.path != "#" && !strings.Contains(id, "#") {
+			baseAtPath[strings.TrimPrefix(alias.path, "#")] = id
+		}
+	}
+
+	anchored := false
+	walkSchema(schema, "", func(node map[string]interface{}, path string) {
+		ref, ok := node["$ref"].(string)
+		base := nearestBaseURI(baseAtPath, path)
+		if !ok || base == "" {
+			return
+		}
+
+		matches := util.RegexMatchNamedCaptureGroups(documentRegex, ref)
+		target, exists := r.idAliases[resolveRelativeURI(base, matches["document"])]
+		if exists && target.documentId == documentId {
+			node["$ref"] = composeJsonPointerPaths(target.path, matches["path"])
+			anchored = true
+		}
+	})
+
+	return anchored
 }
 
 // Gets the URI the $id values and references of a document are relative to
diff --git a/schema.go b/schema.go
index f90385e..5c668f0 100644
--- a/schema.go
+++ b/schema.go
@@ -35,11 +35,16 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	// unless they are explicitly added to the schema manager by the upper level parser
 	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
 
+	rootSchema := util.UnmarshalJsonStringToMap(string(schemaJson))
+	if schema, ok := rootSchema.(map[string]interface{}); ok {
+		resolver.anchorReferences(resolver.GetCurrentScope(), schema)
+	}
+
 	return &schemaManager{
 		rootSchemaCompiler: jsonSchemaCompiler,
 		documentResolver:   resolver,
 		rootDocumentId:     resolver.GetCurrentScope(),
-		rootSchema:         util.UnmarshalJsonStringToMap(string(schemaJson)),
+		rootSchema:         rootSchema,
 		addedDocuments:     make(map[string]bool),
 		resourceCounts:     make(map[string]int),
 	}, nil
-- 
2.43.0


From 468d83de3014b1586b01a86d24be17efab232bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 81/98] fix: allow the null byte in the character classes of a
 pattern

---
 internal/regen/char_class.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 8f3d843..79128d6 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -57,10 +57,10 @@ e.g.
 func parseCharClass(runes []rune) *tCharClass {
 	var totalSize int32
 	numRanges := len(runes) / 2
-	ranges := make([]tCharClassRange, numRanges, numRanges)
+	ranges := make([]tCharClassRange, 0, numRanges)
 
 	for i := 0; i < numRanges; i++ {
-		
+
 		start := runes[i*2]
 		end := runes[i*2+1]
 
@@ -71,9 +71,14 @@ func parseCharClass(runes []rune) *tCharClass {
 			start = 1
 		}
 
+		// a range made of nothing but the null byte
+		if end < start {
+			continue
+		}
+
 		r := newCharClassRange(start, end)
 
-		ranges[i] = r
+		ranges = append(ranges, r)
 		totalSize += r.Size
 	}
 
-- 
2.43.0


From 0e14627fb88c31daab21435dd8ef4e4d70d70d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 82/98] fix: do not generate surrogates from the character
 classes of a pattern

---
 internal/regen/char_class.go         | 24 +++++++++++++++++-------
 internal/regen/internal_generator.go |  9 +++++++++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 79128d6..e2694bd 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -20,6 +20,12 @@ import (
 	"fmt"
 )
 
+// The runes that are reserved for surrogate pairs in UTF-16.
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
 // CharClass represents a regular expression character class as a list of ranges.
 // The runes contained in the class can be accessed by index.
 type tCharClass struct {
@@ -71,15 +77,19 @@ func parseCharClass(runes []rune) *tCharClass {
 			start = 1
 		}
 
-		// a range made of nothing but the null byte
-		if end < start {
-			continue
-		}
+		// surrogates cannot be part of a string, so a range is generated from
+		// the runes before and the runes after them.
+		for _, part := range [][2]rune{{start, min(end, surrogateMin-1)}, {max(start, surrogateMax+1), end}} {
+			// nothing left, as in a range made of nothing but the null byte
+			if part[1] < part[0] {
+				continue
+			}
 
-		r := newCharClassRange(start, end)
+			r := newCharClassRange(part[0], part[1])
 
-		ranges = append(ranges, r)
-		totalSize += r.Size
+			ranges = append(ranges, r)
+			totalSize += r.Size
+		}
 	}
 
 	return &tCharClass{ranges, totalSize}
diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index aca2aa9..9f6aa6c 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"math"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 // generatorFactory is a function that creates a random string generator from a regular expression AST.
@@ -112,6 +113,11 @@ func opEmptyMatch(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerato
 
 func opLiteral(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpLiteral)
+	for _, r := range regexp.Rune {
+		if !utf8.ValidRune(r) {
+			return nil, generatorError(nil, "no string can contain the rune %#x of the pattern: /%s/", r, regexp)
+		}
+	}
 	return &internalGenerator{regexp.String(), func() string {
 		return runesToString(regexp.Rune...)
 	}}, nil
@@ -163,6 +169,9 @@ func opRepeat(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, e
 func opCharClass(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpCharClass)
 	charClass := parseCharClass(regexp.Rune)
+	if charClass.TotalSize < 1 {
+		return nil, generatorError(nil, "no string can contain a rune of the character class: /%s/", regexp)
+	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
 
-- 
2.43.0


From dc31bee46053cba480dc46f619133e6548b90d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 83/98] fix: leave full stops in the quoted parts of a pattern
 as they are

---
 regex.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/regex.go b/regex.go
index 179dc29..e581cb5 100644
--- a/regex.go
+++ b/regex.go
@@ -14,13 +14,23 @@ func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generat
 	return regen.NewGenerator(pattern, opts)
 }
 
-// Replaces every "." that matches any character. Escaped full stops and the ones inside of
-// character classes are literals and so are left as is.
+// Replaces every "." that matches any character. Escaped or quoted full stops and the ones inside
+// of character classes are literals and so are left as is.
 func replaceFullStops(pattern string, replacement string) string {
 	var sb strings.Builder
 	inClass := false
 	for i := 0; i < len(pattern); i++ {
 		switch {
+		case !inClass && strings.HasPrefix(pattern[i:], "\\Q"):
+			// Quoted up to "\E" or the end of the pattern
+			end := strings.Index(pattern[i:], "\\E")
+			if end == -1 {
+				sb.WriteString(pattern[i:])
+				return sb.String()
+			}
+			sb.WriteString(pattern[i : i+end+2])
+			i += end + 1
+			continue
 		case pattern[i] == '\\' && i+1 < len(pattern):
 			sb.WriteByte(pattern[i])
 			i++
-- 
2.43.0


From 6d3e6d8fbeb5139e8a2c45c9b7f043f570db8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 84/98] fix: negate an integer schema with limits by its limits

---
 not.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 46709af..d914f16 100644
--- a/not.go
+++ b/not.go
@@ -332,7 +332,8 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	}
 
 	// Avoid multiples of by 1 when multipleOf is not set
-	if notMultipleOf == 0 && explicitDenyInteger {
+	// An integer that is denied within given limits only, is not denied as such
+	if notMultipleOf == 0 && explicitDenyInteger && !notNodeHasValueConstraints(notNode) {
 		notMultipleOf = 1
 	}
 
-- 
2.43.0


From 7365fb2501fcad0e5f91d8f597b4ae3e7fd29653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 85/98] fix: keep the other types when negating multipleOf

---
 not.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/not.go b/not.go
index d914f16..13a44f3 100644
--- a/not.go
+++ b/not.go
@@ -352,6 +352,9 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	} else if notMultipleOf != 0 && (node.Enum != nil || node.Const != nil) {
 		// The values are already given, so the bounds have to be kept in order to filter them
 		newNode.MultipleOf = node.MultipleOf
+	} else if notMultipleOf != 0 && !nodeHasOnlyNumericTypes(newNode) {
+		// An enum of numbers would rule out the other types, so the negated schema gets enforced after generating
+		newNode.MultipleOf = node.MultipleOf
 	} else if notMultipleOf != 0 {
 		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
 		// in order to create a valid range of values that can be generated.
@@ -928,6 +931,17 @@ func nodeTypeContains(node *schemaNode, candidateType string) bool {
 	return node.Type.SingleType == candidateType || (node.Type.MultipleTypes != nil && funk.ContainsString(node.Type.MultipleTypes, candidateType))
 }
 
+// nodeHasOnlyNumericTypes checks whether all values of the types of the node are numbers
+func nodeHasOnlyNumericTypes(node *schemaNode) bool {
+	for _, nodeType := range getNodeTypes(*node, false) {
+		if nodeType != string(generatorTypeNumber) && nodeType != string(generatorTypeInteger) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // Given we shift the bounds +1 or -1 we need to ensure we don't overflow
 const minInt = math.MinInt32 + 1
 const maxInt = math.MaxInt32 - 1
-- 
2.43.0


From 7aa0bfe87948836bd6ac5e863984613b6da70381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 86/98] fix: no label of a hostname starts with a hyphen

---
 internal/jsonschema/formats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index d457206..e968ff8 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -283,7 +283,7 @@ func isHostname(v any) bool {
 		// labels must not start with a hyphen
 		// RFC 1123 section 2.1: restriction on the first character
 		// is relaxed to allow either a letter or a digit
-		if first := s[0]; first == '-' {
+		if first := label[0]; first == '-' {
 			return false
 		}
 
-- 
2.43.0


From 07b36ef4e336d2851f5e4b8145da3fdacfb043b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 87/98] fix: groups of an IPv4 address have neither a sign nor
 leading zeros

---
 internal/jsonschema/formats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index e968ff8..57814c2 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -361,14 +361,14 @@ func isIPV4(v any) bool {
 		return false
 	}
 	for _, group := range groups {
-		n, err := strconv.Atoi(group)
+		n, err := strconv.ParseUint(group, 10, 16)
 		if err != nil {
 			return false
 		}
-		if n < 0 || n > 255 {
+		if n > 255 {
 			return false
 		}
-		if n != 0 && group[0] == '0' {
+		if len(group) > 1 && group[0] == '0' {
 			return false // leading zeroes should be rejected, as they are treated as octals
 		}
 	}
-- 
2.43.0


From d675cdeedc0fc07037100ed9f4b001f24876886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 88/98] fix: no sign within the fields of a time

---
 internal/jsonschema/formats.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index 57814c2..e2a75b3 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -92,14 +92,15 @@ func isTime(v any) bool {
 		return false
 	}
 	isInRange := func(str string, minVal, maxVal int) (int, bool) {
-		n, err := strconv.Atoi(str)
+		// Other than for "strconv.Atoi" there must be no sign
+		n, err := strconv.ParseUint(str, 10, 8)
 		if err != nil {
 			return 0, false
 		}
-		if n < minVal || n > maxVal {
+		if int(n) < minVal || int(n) > maxVal {
 			return 0, false
 		}
-		return n, true
+		return int(n), true
 	}
 	var h, m, s int
 	if h, ok = isInRange(str[0:2], 0, 23); !ok {
-- 
2.43.0


From 2fce50320110d1b54571eb83fba2259e19cdd543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 89/98] fix: check the local part of an email address for every
 kind of domain

---
 internal/jsonschema/formats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index e2a75b3..8d0d2cd 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -332,6 +332,11 @@ func isEmail(v any) bool {
 		return false
 	}
 
+	// the local part has to be valid for any kind of domain, spaces in front of it would be skipped
+	if _, err := mail.ParseAddress(local + "@localhost"); err != nil || strings.TrimSpace(local) != local {
+		return false
+	}
+
 	// domain if enclosed in brackets, must match an IP address
 	if len(domain) >= 2 && domain[0] == '[' && domain[len(domain)-1] == ']' {
 		ip := domain[1 : len(domain)-1]
-- 
2.43.0


From 913fab9fc3d33009c979965d51035693e18a943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 90/98] fix: no panic when uniqueItems is negated next to
 uniqueItems

---
 not.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index 13a44f3..be44fcc 100644
--- a/not.go
+++ b/not.go
@@ -537,7 +537,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		warnField(metadata, "not/uniqueItems", fmt.Errorf("cannot have 'not/uniqueItems' set to true. It is very difficult to calculate items that match all clauses and are identical throughout the array"))
 	}
 
-	newNode.UniqueItems = resolveBool("not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
+	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
@@ -1170,13 +1170,13 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	return validValues, nil
 }
 
-func resolveBool(fieldName string, value *bool, notValue *bool) *bool {
+func resolveBool(metadata *parserMetadata, fieldName string, value *bool, notValue *bool) *bool {
 	if value == nil && notValue == nil {
 		return nil
 	}
 
 	if value != nil && notValue != nil && *value == *notValue {
-		warnField(nil, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
+		warnField(metadata, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
 		return value
 	}
 
-- 
2.43.0


From fc2a64375db5d19d9fcfdb0d763c3b7147237a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 91/98] fix: no panic for references with line breaks

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 974b958..5fc21ca 100644
--- a/document.go
+++ b/document.go
@@ -49,7 +49,7 @@ type (
 	genericNode map[string]interface{}
 )
 
-var documentRegex = regexp.MustCompile("^(?P<document>(?:[a-zA-Z][a-zA-Z0-9+.-]*:)?[^#]*)?(?P<path>#.*)?$")
+var documentRegex = regexp.MustCompile("(?s)^(?P<document>(?:[a-zA-Z][a-zA-Z0-9+.-]*:)?[^#]*)?(?P<path>#.*)?$")
 
 // Random UUID generated for the root document ID to prevent clashes with external document IDs
 const rootDocumentId = "8dabc98a-527b-4f08-baba-315beb368097.json"
-- 
2.43.0


From a3b831eb8adce471128d5109337a2f6484ec77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 92/98] fix: compile const and enum below names with percent
 signs or control characters

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5c668f0..0115c2a 100644
--- a/schema.go
+++ b/schema.go
@@ -23,7 +23,7 @@ type (
 	}
 )
 
-var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
+var pathSanitiseRegex = regexp.MustCompile(`[^a-zA-Z0-9_]`)
 
 // Create a new schema manager used to manage sub schema validators required for
 // conditional validators where generated values must be validated against the original schema
-- 
2.43.0


From 63ca84eb87293a35c33202a6576bbf27c7a28c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:30 +0000
Subject: [PATCH 93/98] fix: keep documents in folders with reserved characters
 apart from fragments and escapes

---
 document.go |  4 +++-
 fetchers.go | 25 ++++++++++++++++++++-----
 parse.go    |  2 +-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/document.go b/document.go
index 5fc21ca..20ff8f6 100644
--- a/document.go
+++ b/document.go
@@ -81,10 +81,12 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		if err != nil {
 			opts.RelativeTo = "file://./"
 		} else {
-			opts.RelativeTo = "file://" + cwd + "/"
+			opts.RelativeTo = fileDocumentId(cwd + "/")
 		}
 
 		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
+	} else if strings.HasPrefix(opts.RelativeTo, "file:///") {
+		resolvedRootDocumentId = fileDocumentId(filePathOf(opts.RelativeTo))
 	} else {
 		resolvedRootDocumentId = opts.RelativeTo
 	}
diff --git a/fetchers.go b/fetchers.go
index c04ccc6..4ba2f6f 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -166,10 +166,10 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("invalid file URL scheme '%s' for URL '%s'", parsedUrl.Scheme, ref)
 	}
 
-	filePath := strings.TrimPrefix(ref, "file://")
+	filePath := filePathOf(ref)
 
 	// Resolve against the file path we are relative to
-	relativeToDir := filepath.Dir(strings.TrimPrefix(relativeTo, "file://"))
+	relativeToDir := filepath.Dir(filePathOf(relativeTo))
 	if !filepath.IsAbs(filePath) {
 		filePath = filepath.Join(relativeToDir, filePath)
 	}
@@ -194,7 +194,7 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 	}
 
 	if len(f.allowedPaths) == 0 {
-		return "file://" + resolvedPath, nil
+		return fileDocumentId(resolvedPath), nil
 	}
 
 	outsideAllowedPaths, err := isOutsideOfAllowedPaths(resolvedPath, f.allowedPaths)
@@ -206,11 +206,11 @@ func (f *fileSystemDocumentFetcher) resolveDocumentId(relativeTo string, ref str
 		return "", fmt.Errorf("access to path '%s' is not allowed. Only paths files in the following paths are allowed: %s", resolvedPath, strings.Join(f.allowedPaths, ", "))
 	}
 
-	return "file://" + resolvedPath, nil
+	return fileDocumentId(resolvedPath), nil
 }
 
 func (f *fileSystemDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resolvedPath = strings.TrimPrefix(resolvedPath, "file://")
+	resolvedPath = filePathOf(resolvedPath)
 	fileData, err := os.ReadFile(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to read file at path '%s': %w", resolvedPath, err)
@@ -260,6 +260,21 @@ func isOutsideOfPath(path string, directory string) (bool, error) {
 	return diff == ".." || strings.HasPrefix(diff, ".."+string(filepath.Separator)), err
 }
 
+// The document ID of a file is its URL, so that paths with characters like "#" or "%" can be told from the other parts of one
+func fileDocumentId(path string) string {
+	return (&url.URL{Scheme: "file", Path: path}).String()
+}
+
+// Gets the path of the file a document ID or reference names
+func filePathOf(documentId string) string {
+	path := strings.TrimPrefix(documentId, "file://")
+	if unescaped, err := url.PathUnescape(path); err == nil {
+		return unescaped
+	}
+
+	return path
+}
+
 func getRealPath(path string) (string, error) {
 	realPath, err := filepath.Abs(path)
 	if err != nil {
diff --git a/parse.go b/parse.go
index a17e502..99bd7a8 100644
--- a/parse.go
+++ b/parse.go
@@ -218,7 +218,7 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	// Resolve relative path base for fetching external documents unless already set
 	fileOpts := *opts
 	if fileOpts.RelativeTo == "" {
-		fileOpts.RelativeTo = "file://" + path
+		fileOpts.RelativeTo = fileDocumentId(path)
 	}
 
 	return ParseSchema(data, &fileOpts)
-- 
2.43.0


From 3aa37ecff810982e4444dacdf0143c6b11c450db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 94/98] fix: keywords are case sensitive

---
 json.go | 56 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/json.go b/json.go
index 8d1493d..2f42a3b 100644
--- a/json.go
+++ b/json.go
@@ -3,6 +3,8 @@ package chaff
 import (
 	"encoding/json"
 	"errors"
+	"reflect"
+	"strings"
 )
 
 type (
@@ -149,28 +151,54 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 	return []byte("true"), nil
 }
 
-// Standard json.Unmarshal treats {"const": null} and an absent "const" key
-// identically (*interface{} → nil in both cases). The secondary raw-key pass
-// below detects when "const" is explicitly present so the pointer is non-nil.
+// The keywords of a schema
+var schemaKeywords = func() map[string]bool {
+	keywords := map[string]bool{}
+	node := reflect.TypeOf(schemaNode{})
+	for i := 0; i < node.NumField(); i++ {
+		name, _, _ := strings.Cut(node.Field(i).Tag.Get("json"), ",")
+		if name != "" {
+			keywords[name] = true
+		}
+	}
+
+	return keywords
+}()
+
 func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	type schemaNodeAlias schemaNode
+	var raw map[string]json.RawMessage
+	if err := json.Unmarshal(data, &raw); err != nil {
+		return err
+	}
+
+	changed := false
+	for key := range raw {
+		// encoding/json ignores the case of keys. The one of keywords matters, so "Type" is not a keyword
+		if !schemaKeywords[key] {
+			delete(raw, key)
+			changed = true
+		}
+	}
+
+	if changed {
+		var err error
+		if data, err = json.Marshal(raw); err != nil {
+			return err
+		}
+	}
+
 	var alias schemaNodeAlias
 	if err := json.Unmarshal(data, &alias); err != nil {
 		return err
 	}
 	*s = schemaNode(alias)
 
-	// Only ambiguous when the standard pass left Const nil — a non-null
-	// const value is already correctly populated.
-	if s.Const == nil {
-		var raw map[string]json.RawMessage
-		if err := json.Unmarshal(data, &raw); err != nil {
-			return err
-		}
-		if _, ok := raw["const"]; ok {
-			var val interface{}
-			s.Const = &val
-		}
+	// Standard json.Unmarshal treats {"const": null} and an absent "const" key identically (*interface{} → nil
+	// in both cases). Detect when "const" is explicitly present so the pointer is non-nil.
+	if _, ok := raw["const"]; ok && s.Const == nil {
+		var val interface{}
+		s.Const = &val
 	}
 
 	return nil
-- 
2.43.0


From 834cb84607d72dbe2eb5725f064c0a3591bd232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 95/98] fix: accept size limits written with a fraction or
 exponent

---
 json.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 2f42a3b..b0a56bc 100644
--- a/json.go
+++ b/json.go
@@ -3,7 +3,9 @@ package chaff
 import (
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -151,14 +153,14 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 	return []byte("true"), nil
 }
 
-// The keywords of a schema
+// The keywords of a schema. True for the ones that have to be integers.
 var schemaKeywords = func() map[string]bool {
 	keywords := map[string]bool{}
 	node := reflect.TypeOf(schemaNode{})
 	for i := 0; i < node.NumField(); i++ {
 		name, _, _ := strings.Cut(node.Field(i).Tag.Get("json"), ",")
 		if name != "" {
-			keywords[name] = true
+			keywords[name] = node.Field(i).Type == reflect.TypeOf((*int)(nil))
 		}
 	}
 
@@ -173,11 +175,21 @@ func (s *schemaNode) UnmarshalJSON(data []byte) error {
 	}
 
 	changed := false
-	for key := range raw {
+	for key, value := range raw {
 		// encoding/json ignores the case of keys. The one of keywords matters, so "Type" is not a keyword
-		if !schemaKeywords[key] {
+		isInteger, isKeyword := schemaKeywords[key]
+		if !isKeyword {
 			delete(raw, key)
 			changed = true
+			continue
+		}
+
+		// JSON schema does not tell 2.0 from 2
+		var number float64
+		if isInteger && strings.ContainsAny(string(value), ".eE") && json.Unmarshal(value, &number) == nil &&
+			number == math.Trunc(number) && math.Abs(number) <= math.MaxInt32 {
+			raw[key] = json.RawMessage(strconv.Itoa(int(number)))
+			changed = true
 		}
 	}
 
-- 
2.43.0


From 893e869b0308e318581dbc7478efddb96d50f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 96/98] fix: keep const next to enum when merging

---
 merge.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/merge.go b/merge.go
index 69d2654..f098c18 100644
--- a/merge.go
+++ b/merge.go
@@ -184,9 +184,12 @@ func isImpliedByReference(metadata *parserMetadata, node schemaNode) bool {
 
 // collectEnumValues returns the effective set of allowed values for a node.
 // A const is treated as a single-value enum; if both const and enum are
-// present the enum is returned (the const is redundant). Returns nil when
-// the node has neither const nor enum.
+// present only the values allowed by both of them are returned. Returns nil
+// when the node has neither const nor enum.
 func collectEnumValues(node schemaNode) *[]interface{} {
+	if node.Enum != nil && node.Const != nil {
+		return intersectEnumSlices(node.Enum, &[]interface{}{*node.Const})
+	}
 	if node.Enum != nil {
 		return node.Enum
 	}
@@ -219,12 +222,13 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 		result = left
 	} else {
 		result = intersectEnumSlices(left, right)
-		if len(*result) == 0 {
-			warnConfigMergeError(metadata, "enum/const", fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right))
-			mergedNode.Enum = nil
-			mergedNode.Const = nil
-			return mergedNode
-		}
+	}
+
+	if len(*result) == 0 {
+		warnConfigMergeError(metadata, "enum/const", fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right))
+		mergedNode.Enum = nil
+		mergedNode.Const = nil
+		return mergedNode
 	}
 
 	// Single value → const, multiple values → enum.
-- 
2.43.0


From 8f10d974a9b7cdb82f1be092209e810e0e1c5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 97/98] fix: report a minimal repeat count above the maximal
 one

---
 internal/regen/regen.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/regen/regen.go b/internal/regen/regen.go
index c22e983..5ab4ad4 100644
--- a/internal/regen/regen.go
+++ b/internal/regen/regen.go
@@ -98,7 +98,6 @@ the results of running the benchmarks with minimal load are:
 package regen
 
 import (
-	"fmt"
 	"math/rand"
 	"regexp/syntax"
 )
@@ -166,8 +165,8 @@ func (a *GeneratorArgs) initialize() error {
 	}
 
 	if a.MinUnboundedRepeatCount > a.MaxUnboundedRepeatCount {
-		panic(fmt.Sprintf("MinUnboundedRepeatCount(%d) > MaxUnboundedRepeatCount(%d)",
-			a.MinUnboundedRepeatCount, a.MaxUnboundedRepeatCount))
+		return generatorError(nil, "MinUnboundedRepeatCount(%d) > MaxUnboundedRepeatCount(%d)",
+			a.MinUnboundedRepeatCount, a.MaxUnboundedRepeatCount)
 	}
 
 	if a.CaptureGroupHandler == nil {
-- 
2.43.0


From ca250185b0755f50257d54da90b84d683fd29841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:11 +0000
Subject: [PATCH 98/98] fix: negate the multiples of an integer schema among
 integers

---
 not.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index be44fcc..6c52916 100644
--- a/not.go
+++ b/not.go
@@ -325,15 +325,15 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	notMultipleOf := util.GetZeroIfNil(notNode.MultipleOf, 0)
 
 	couldBeInteger := nodeTypeContains(newNode, string(generatorTypeInteger))
-	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger))
+	// An integer that is denied within given limits only, is not denied as such
+	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger)) && !notNodeHasValueConstraints(notNode)
 
 	if multipleOf == 0 && couldBeInteger && !explicitDenyInteger {
 		multipleOf = 1
 	}
 
 	// Avoid multiples of by 1 when multipleOf is not set
-	// An integer that is denied within given limits only, is not denied as such
-	if notMultipleOf == 0 && explicitDenyInteger && !notNodeHasValueConstraints(notNode) {
+	if notMultipleOf == 0 && explicitDenyInteger {
 		notMultipleOf = 1
 	}
 
-- 
2.43.0

