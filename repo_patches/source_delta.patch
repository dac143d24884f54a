From 14fc4a695c96bd1770508cd5f742e34ce71a6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 01/43] fix: numeric bounds accept single-value ranges, stay
 inside exclusive bounds and reach every multiple

---
 number.go      | 109 ++++++++++++++++++++++++++++++-------------------
 rand/random.go |   4 +-
 2 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/number.go b/number.go
index 374dda9..75fc5e7 100644
--- a/number.go
+++ b/number.go
@@ -23,7 +23,11 @@ const (
 	// Anything smaller than this and Golangs math.Floor and math.Ceil functions
 	// begin to misbehave due to floating point precision issues
 	infinitesimal = 0.1e-13
-	maxRoundFloat = 1e290 // Bound to slightly less than the max float64 value to avoid unserializable inf values
+
+	// Number of integers an int can hold in either direction
+	maxInteger = 1 << 63
+	// Largest range of integers that a float64 represents without gaps
+	maxIntegerRange = 1 << 53
 
 	// Bound to slightly less than the max float64 value to avoid unserializable inf values
 	upperBound = math.MaxFloat64 / 1000
@@ -68,22 +72,14 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 	var min float64 = math.Inf(-1)
 	var max float64 = math.Inf(1)
 
-	// For integers, exclusive bounds need an offset of 1 so that
-	// math.Ceil / math.Floor produce a value strictly inside the bound.
-	// For floats the tiny infinitesimal offset is sufficient.
-	exclusiveOffset := infinitesimal
-	if mustBeAnInteger {
-		exclusiveOffset = 1.0
-	}
-
 	// Initial Validation
 	min = util.GetZeroIfNil(
-		util.MaxFloatPtr(node.Minimum, addIfNotNilFloat64(node.ExclusiveMinimum, exclusiveOffset)),
+		util.MaxFloatPtr(node.Minimum, nextValueAbove(node.ExclusiveMinimum, mustBeAnInteger)),
 		math.Inf(-1),
 	)
 
 	max = util.GetZeroIfNil(
-		util.MinFloatPtr(node.Maximum, addIfNotNilFloat64(node.ExclusiveMaximum, -exclusiveOffset)),
+		util.MinFloatPtr(node.Maximum, nextValueBelow(node.ExclusiveMaximum, mustBeAnInteger)),
 		math.Inf(1),
 	)
 
@@ -110,8 +106,8 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 
 	// If we are an integer type, round min and max to the nearest integers
 	if mustBeAnInteger {
-		// If min and max are both non-integer values and round to the same integer
-		if math.Floor(min) == math.Floor(max) {
+		// If there is no integer between min and max
+		if min <= max && math.Ceil(min) > math.Floor(max) {
 			return 0, 0, fmt.Errorf("minimum and maximum do not allow for any integers (min: %f, max: %f)", min, max)
 		}
 
@@ -135,42 +131,76 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 			return 0, 0, errors.New("integer type cannot have a non-integer multipleOf")
 		}
 
-		multiplesInRange := countMultiplesInRange(min, max, multipleOf)
-
-		if multiplesInRange == 0 {
+		if first, last := multiplesInRange(min, max, multipleOf); multipleOf != 0 && first > last {
 			return 0, 0, errors.New("minimum and maximum do not allow for any multiples of multipleOf")
 		}
 	}
 	return min, max, nil
 }
 
-func countMultiplesInRange(min float64, max float64, multiple float64) int {
-	if min == 0 {
-		return int(math.Floor(max / multiple))
+// Smallest value that is permitted by an exclusive minimum
+func nextValueAbove(exclusiveMinimum *float64, mustBeAnInteger bool) *float64 {
+	if exclusiveMinimum == nil {
+		return nil
 	}
 
-	return int(math.Floor(max/multiple)) - int(math.Floor(min/multiple))
+	next := math.Nextafter(*exclusiveMinimum, math.Inf(1))
+	if mustBeAnInteger {
+		next = math.Max(next, math.Floor(*exclusiveMinimum)+1)
+	}
+	return &next
 }
 
-func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
-	multiplesInRange := countMultiplesInRange(min, max, multiple)
+// Largest value that is permitted by an exclusive maximum
+func nextValueBelow(exclusiveMaximum *float64, mustBeAnInteger bool) *float64 {
+	if exclusiveMaximum == nil {
+		return nil
+	}
 
-	if multiplesInRange == 0 {
-		return 0
+	next := math.Nextafter(*exclusiveMaximum, math.Inf(-1))
+	if mustBeAnInteger {
+		next = math.Min(next, math.Ceil(*exclusiveMaximum)-1)
+	}
+	return &next
+}
+
+// The value of the nth multiple of a number
+func nthMultiple(n float64, multiple float64) float64 {
+	return util.Round(n*multiple, multiple)
+}
+
+// Resolves which multiples (first to last) are in the range of min to max (inclusive).
+func multiplesInRange(min float64, max float64, multiple float64) (float64, float64) {
+	first := math.Ceil(min / multiple)
+	last := math.Floor(max / multiple)
+
+	// The division is subject to floating point rounding so check the multiples next to the bounds
+	if nthMultiple(first-1, multiple) >= min {
+		first--
+	} else if nthMultiple(first, multiple) < min {
+		first++
 	}
 
-	lowerBound := math.Floor(min/multiple) * multiple
-	randomMultiple := float64(rand.RandomInt(1, multiplesInRange)) * multiple
-	return lowerBound + randomMultiple
+	if nthMultiple(last+1, multiple) <= max {
+		last++
+	} else if nthMultiple(last, multiple) > max {
+		last--
+	}
+
+	return first, last
 }
 
-func roundToInfinitesimal(f float64) float64 {
-	// Dividing by infinitesimal (1e-14) amplifies the value by 1e14.
-	// Skip rounding for values whose magnitude would overflow to ±Inf.
-	if math.IsInf(f, 0) || math.Abs(f) > maxRoundFloat {
-		return f
+func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
+	first, last := multiplesInRange(min, max, multiple)
+	if first > last {
+		return 0
+	}
+
+	if last-first >= maxIntegerRange {
+		return nthMultiple(math.Floor(rand.RandomFloat(first, last)), multiple)
 	}
-	return math.Round(f/infinitesimal) * infinitesimal
+
+	return nthMultiple(first+float64(rand.RandomInt(0, int(last-first)+1)), multiple)
 }
 
 func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
@@ -181,7 +211,7 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 	} else if g.Type == generatorTypeInteger && g.MultipleOf == 0 {
 		result = float64(math.Round(opts.Rand.RandomFloat(g.Min, g.Max)))
 	} else if g.Type == generatorTypeNumber && g.MultipleOf != 0 {
-		result = util.Round(generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf), g.MultipleOf)
+		result = generateMultipleOf(*opts.Rand, g.Min, g.Max, g.MultipleOf)
 	} else if g.Type == generatorTypeNumber && g.MultipleOf == 0 {
 		result = opts.Rand.RandomFloat(g.Min, g.Max)
 	}
@@ -194,18 +224,11 @@ func (g *numberGenerator) Generate(opts *GeneratorOptions) interface{} {
 		return 0.0
 	}
 
-	if g.Type == generatorTypeInteger {
+	// Whole numbers outside of the range of an int are kept as they are
+	if g.Type == generatorTypeInteger && math.Abs(result) < maxInteger {
 		return int(result)
 	}
 
-	// MultipleOf arithmetic can accumulate tiny floating-point errors that
-	// push the result just outside the min/max bounds. Snap to the nearest
-	// infinitesimal to eliminate them. Plain floats (no multipleOf) don't
-	// need this — and applying it would destroy sub-infinitesimal values.
-	if g.MultipleOf != 0 {
-		return roundToInfinitesimal(result)
-	}
-
 	return result
 }
 
diff --git a/rand/random.go b/rand/random.go
index f4f2692..9db1558 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -1,6 +1,7 @@
 package rand
 
 import (
+	"math"
 	"math/rand"
 	"time"
 
@@ -68,7 +69,8 @@ func (sr *RandUtil) RandomInt(min int, max int) int {
 
 // Float functions
 func (sr *RandUtil) RandomFloat(min float64, max float64) float64 {
-	return sr.Rand.Float64()*(max-min) + min
+	// Rounding must not carry the result past the upper bound
+	return math.Min(sr.Rand.Float64()*(max-min)+min, max)
 }
 
 // Bool functions
-- 
2.43.0


From 1385ed77088a8a723c5bb04c86ad6613a5f76e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 02/43] fix: honour maxLength 0 and report minLength above it

---
 string.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/string.go b/string.go
index 42bef19..da48d72 100644
--- a/string.go
+++ b/string.go
@@ -16,7 +16,7 @@ type (
 		Pattern          string
 		PatternGenerator regen.Generator
 		MinLength        int
-		MaxLength        int
+		MaxLength        *int
 	}
 )
 
@@ -73,12 +73,12 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	// Validate length bounds
 	minLength := util.GetZeroIfNil(node.MinLength, 0)
-	maxLength := util.GetZeroIfNil(node.MaxLength, 0)
+	maxLength := util.GetZeroIfNil(node.MaxLength, minLength)
 	if maxLength < 0 || minLength < 0 {
 		return nullGenerator{}, fmt.Errorf("min/max length cannot be negative")
 	}
 
-	if minLength > maxLength && maxLength != 0 {
+	if minLength > maxLength {
 		return nullGenerator{}, fmt.Errorf("minLength cannot be greater than maxLength")
 	}
 
@@ -92,7 +92,7 @@ func parseString(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		Format:    stringFormat(util.GetZeroIfNil(node.Format, "")),
 		Pattern:   util.GetZeroIfNil(node.Pattern, ""),
 		MinLength: minLength,
-		MaxLength: maxLength,
+		MaxLength: node.MaxLength,
 	}
 
 	if node.Pattern != nil {
@@ -127,8 +127,8 @@ func (g stringGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	// Truncate it if it get's too long
-	if g.MaxLength != 0 && sb.Len() > g.MaxLength {
-		return sb.String()[:g.MaxLength]
+	if g.MaxLength != nil && sb.Len() > *g.MaxLength {
+		return sb.String()[:*g.MaxLength]
 	}
 
 	return sb.String()
-- 
2.43.0


From 43a1c27434af91c33a669e9b468702ab9efab7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 03/43] fix: objects keep their property limits, stay closed
 and keep declared values

---
 object.go | 97 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 30 deletions(-)

diff --git a/object.go b/object.go
index 635f96b..bc618b4 100644
--- a/object.go
+++ b/object.go
@@ -22,11 +22,14 @@ type (
 		FallbackGenerator Generator
 
 		MinProperties int
-		MaxProperties int
+		MaxProperties *int
 		Required      []string
 	}
 )
 
+// Number of names tried to satisfy minProperties from pattern properties alone
+const maxPatternPropertyAttempts = 100
+
 // Parses the "type" keyword of a schema when it is an object
 // Example:
 //
@@ -42,7 +45,7 @@ type (
 func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Validator Max and Min Properties
 	minProperties := util.GetZeroIfNil(node.MinProperties, 0)
-	maxProperties := util.GetZeroIfNil(node.MaxProperties, 0)
+	maxProperties := util.GetZeroIfNil(node.MaxProperties, minProperties)
 	requiredProperties := util.GetZeroIfNil(node.Required, []string{})
 	properties := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
 
@@ -70,12 +73,21 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
 
+	// A closed object without pattern properties can not hold undeclared required properties
+	if additionalProperties.IsFalse && node.PatternProperties == nil {
+		for _, key := range requiredProperties {
+			if _, ok := properties[key]; !ok {
+				return nullGenerator{}, fmt.Errorf("required property %q is not declared and additional properties are not allowed", key)
+			}
+		}
+	}
+
 	patternProperties, patternPropertiesRegex := parsePatternProperties(node, metadata)
 
 	objectGenerator := objectGenerator{
 		Required:      requiredProperties,
 		MinProperties: minProperties,
-		MaxProperties: maxProperties,
+		MaxProperties: node.MaxProperties,
 
 		Properties:             parseProperties(node, metadata),
 		PatternProperties:      patternProperties,
@@ -167,31 +179,40 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Generate Required Properties
 	generatedValues := make(map[string]interface{})
 	for _, key := range g.Required {
-		// If no properties are defined, generate a nil value
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
+		if property, ok := g.Properties[key]; ok {
 			// Generate the required property
-			generatedValues[key] = g.Properties[key].Generate(opts)
+			generatedValues[key] = property.Generate(opts)
+		} else if g.AdditionalProperties != nil {
+			// Undeclared properties have to conform to additionalProperties
+			generatedValues[key] = g.AdditionalProperties.Generate(opts)
+		} else {
+			// If the property is not defined, generate a placeholder value
+			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
 		}
 	}
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(g.Required, funk.Keys(g.Properties).([]string)...))
+	optionalKeys := []string{}
+	for _, key := range funk.Keys(g.Properties).([]string) {
+		if _, ok := generatedValues[key]; !ok {
+			optionalKeys = append(optionalKeys, key)
+		}
+	}
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
-	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
+	max := util.GetZeroIfNil(g.MaxProperties, opts.DefaultObjectMaxProperties)
 
-	// Make sure the max is always greater than the min
-	if max < min {
+	if g.MaxProperties != nil {
+		// Configured defaults never override the limits of the schema
+		min = util.MinInt(min, max)
+	} else if max < min {
+		// Make sure the max is always greater than the min
 		max = min + max
 	}
 
-	minimumExtrasToGenerate := util.MaxInt(0, min-len(g.Required))
-	maximumExtrasToGenerate := util.MaxInt(0, max-len(g.Required))
+	minimumExtrasToGenerate := util.MaxInt(0, min-len(generatedValues))
+	maximumExtrasToGenerate := util.MaxInt(0, max-len(generatedValues))
 
 	generatorTarget := opts.Rand.RandomInt(minimumExtrasToGenerate, maximumExtrasToGenerate)
 
@@ -204,13 +225,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate any optional keys
 	for _, key := range optionalKeysToGenerate {
-		if g.Properties == nil {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else if _, ok := g.Properties[key]; !ok {
-			generatedValues[key] = fmt.Sprintf("optional_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
-		} else {
-			generatedValues[key] = g.Properties[key].Generate(opts)
-		}
+		generatedValues[key] = g.Properties[key].Generate(opts)
 	}
 
 	generatorTarget -= len(optionalKeysToGenerate)
@@ -219,15 +234,19 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any additional properties
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
-		for i := 0; i < generatorTarget; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+		for i := 0; i < generatorTarget || (g.DisallowAdditionalProperties && len(generatedValues) < min && i < maxPatternPropertyAttempts); i++ {
+			key, value := g.GeneratePatternProperty(opts)
+
+			// A name that happens to be taken or declared keeps its own value
+			if g.isFree(key, generatedValues) {
+				generatedValues[key] = value
+			}
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
 		for i := 0; i < generatorTarget; i++ {
-			generatedValues[fmt.Sprintf("additional_%d", i)] = g.AdditionalProperties.Generate(opts)
+			generatedValues[g.freeKey("additional", i, generatedValues)] = g.AdditionalProperties.Generate(opts)
 		}
 	} else {
 		for i := 0; i < generatorTarget; i++ {
@@ -235,21 +254,21 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 				continue
 			}
 
-			generatedValues[fmt.Sprintf("fallback_%d", i)] = g.FallbackGenerator.Generate(opts)
+			generatedValues[g.freeKey("fallback", i, generatedValues)] = g.FallbackGenerator.Generate(opts)
 		}
 	}
 
 	// In the event the number of generated parameters due to config options
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
-	if len(generatedValues) < min {
+	if len(generatedValues) < min && !g.DisallowAdditionalProperties {
 		generator := g.FallbackGenerator
 		if g.AdditionalProperties != nil {
 			generator = g.AdditionalProperties
 		}
 
 		for i := len(generatedValues); i < min; i++ {
-			generatedValues[fmt.Sprintf("min_filler_%d", i)] = generator.Generate(opts)
+			generatedValues[g.freeKey("min_filler", i, generatedValues)] = generator.Generate(opts)
 		}
 
 	}
@@ -257,6 +276,24 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// Reports if a property name is neither declared by the schema nor generated already
+func (g objectGenerator) isFree(key string, generatedValues map[string]interface{}) bool {
+	_, declared := g.Properties[key]
+	_, generated := generatedValues[key]
+	return !declared && !generated
+}
+
+// Finds a numbered name for an undeclared property starting from a given index
+func (g objectGenerator) freeKey(prefix string, index int, generatedValues map[string]interface{}) string {
+	for {
+		key := fmt.Sprintf("%s_%d", prefix, index)
+		if g.isFree(key, generatedValues) {
+			return key
+		}
+		index++
+	}
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From b764f275c888c51b9d4ba9d01ba0f83aa4c5aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 04/43] fix: arrays keep maxItems 0, closed tuples, unique
 tuples and configured limits

---
 array.go | 56 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/array.go b/array.go
index 9cc53a2..07df459 100644
--- a/array.go
+++ b/array.go
@@ -20,7 +20,7 @@ type (
 
 		MinContains int
 		MinItems    int
-		MaxItems    int
+		MaxItems    *int
 
 		DisallowAdditional bool
 		schemaNode         schemaNode
@@ -43,28 +43,31 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	minContains := util.GetZeroIfNil(node.MinContains, 0)
 	maxContains := util.GetZeroIfNil(node.MaxContains, 0)
 	minItems := util.GetZeroIfNil(node.MinItems, 0)
-	maxItems := util.GetZeroIfNil(node.MaxItems, 0)
+	maxItems := util.GetZeroIfNil(node.MaxItems, minItems)
 	prefixItems := util.GetZeroIfNil(node.PrefixItems, []schemaNode{})
 
-	if minContains == 0 && node.Contains != nil {
+	if len(prefixItems) == 0 && node.Items != nil && node.Items.Nodes != nil {
+		prefixItems = *node.Items.Nodes
+	}
+
+	if node.Contains == nil {
+		// minContains and maxContains have no meaning without contains
+		minContains, maxContains = 0, 0
+	} else if minContains == 0 {
 		minContains = 1
 	}
 
 	// Validate Bounds
-	if err := assertLowerUpperBound(minItems, maxItems, "minItems", "maxItems"); err != nil {
-		return nullGenerator{}, err
+	if minItems < 0 || maxItems < 0 || minItems > maxItems {
+		return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to maxItems and neither may be negative (minItems: %d, maxItems: %d)", minItems, maxItems)
 	}
 
 	if err := assertLowerUpperBound(minContains, maxContains, "minContains", "maxContains"); err != nil {
 		return nullGenerator{}, err
 	}
 
-	if err := assertLowerUpperBound(minContains, minItems, "minContains", "minItems"); err != nil {
-		return nullGenerator{}, err
-	}
-
-	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
-		return nullGenerator{}, err
+	if requiredItems := len(prefixItems) + minContains; node.MaxItems != nil && node.Contains != nil && requiredItems > maxItems {
+		return nullGenerator{}, fmt.Errorf("Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account) must be less than or equal to maxItems (%d, maxItems: %d)", requiredItems, maxItems)
 	}
 
 	// Validate if tuple makes sense in this context
@@ -73,16 +76,13 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
 
-	min := util.GetInt(minItems, minContains)
-	max := util.GetInt(maxItems, min+defaultOffset)
-
-	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
+	// Note that additionalItems only applies to the array form of items
+	disallowedAdditionalItems := node.Items != nil && (node.Items.DisallowAdditionalItems ||
+		(node.Items.Nodes != nil && node.AdditionalItems != nil && node.AdditionalItems.IsFalse))
 
-	// Force the generator to use only the tuple in the event that additional items
-	// are not allowed
-	if disallowedAdditionalItems {
-		min = tupleLength
-		max = tupleLength
+	// In the event that additional items are not allowed the tuple is all there can be
+	if disallowedAdditionalItems && util.MaxInt(minItems, tupleLength+minContains) > tupleLength {
+		return nullGenerator{}, fmt.Errorf("minItems and contains cannot be satisfied as nothing is allowed after the tuple (tupleLength: %d, minItems: %d, minContains: %d)", tupleLength, minItems, minContains)
 	}
 
 	var itemGenerator, additionalItemGenerator, containsGenerator, unevaluatedItemsGenerator Generator = nil, nil, nil, nil
@@ -121,14 +121,14 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UnevaluatedItemsGenerator: unevaluatedItemsGenerator,
 		DisallowUnevaluatedItems:  disallowUnevaluatedItems,
 
-		DisallowAdditional:       node.Items != nil && node.Items.DisallowAdditionalItems,
+		DisallowAdditional:       disallowedAdditionalItems,
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
 		ContainsGenerator: containsGenerator,
 
-		MinItems: min,
-		MaxItems: max,
+		MinItems: util.GetInt(minItems, minContains),
+		MaxItems: node.MaxItems,
 
 		UniqueItems: util.GetZeroIfNil(node.UniqueItems, false),
 
@@ -219,7 +219,8 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	if tupleLength != 0 {
 		for _, generator := range g.TupleGenerators {
-			arrayData = append(arrayData, generator.Generate(opts))
+			item, _ := g.generateConsideringUnique(opts, generator, arrayData)
+			arrayData = append(arrayData, item)
 		}
 	}
 
@@ -242,7 +243,12 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	}
 
 	minItems := util.GetInt(g.MinItems, opts.DefaultArrayMinItems)
-	maxItems := util.GetInt(g.MaxItems, opts.DefaultArrayMaxItems)
+	maxItems := util.GetZeroIfNil(g.MaxItems, opts.DefaultArrayMaxItems)
+
+	if g.MaxItems != nil {
+		// Configured defaults never override the limits of the schema
+		minItems = util.MinInt(minItems, maxItems)
+	}
 
 	// Handle cases where no min items are handled
 	minContains := 0
-- 
2.43.0


From 643f7b88719fc87b6ee14c21a60dab0675a6ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 05/43] fix: random choices and shuffles draw from the given
 source

---
 rand/random.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rand/random.go b/rand/random.go
index 9db1558..88cd73d 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -4,8 +4,6 @@ import (
 	"math"
 	"math/rand"
 	"time"
-
-	"github.com/thoas/go-funk"
 )
 
 type RandUtil struct {
@@ -46,14 +44,23 @@ func (sr *RandUtil) StringChoice(stringSlice *[]string) string {
 
 func (sr *RandUtil) StringChoiceMultiple(stringSlice *[]string, numChoices int) []string {
 	// Pick NumChoices random choices from the string slice without duplicates
-	choices := funk.Shuffle(*stringSlice).([]string)
+	choices := append([]string{}, *stringSlice...)
+	for i := 0; i < numChoices; i++ {
+		j := sr.RandomInt(i, len(choices))
+		choices[i], choices[j] = choices[j], choices[i]
+	}
 
 	return choices[:numChoices]
 }
 
-// @todo - Reimplement to use std rand source
 func (sr *RandUtil) Shuffle(in []interface{}) []interface{} {
-	return funk.Shuffle(in).([]interface{})
+	out := append([]interface{}{}, in...)
+	for i := range out {
+		j := sr.RandomInt(i, len(out))
+		out[i], out[j] = out[j], out[i]
+	}
+
+	return out
 }
 
 // Int functions
-- 
2.43.0


From de6bae3153747522e5d8ae10491a94bd6cba2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 06/43] fix: list-form items and true sub-schemas survive
 decoding and re-encoding

---
 json.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index fe5b301..894494a 100644
--- a/json.go
+++ b/json.go
@@ -86,8 +86,15 @@ func (i *itemsData) UnmarshalJSON(data []byte) error {
 		return nodeErr
 	}
 
-	i.Nodes = nodes
-	i.Node = node
+	// A failed attempt leaves an empty value behind that must not be mistaken for the given schema
+	if nodeErr == nil {
+		i.Node = node
+	}
+
+	if nodesErr == nil {
+		i.Nodes = nodes
+	}
+
 	return nil
 }
 
@@ -139,7 +146,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 		return json.Marshal(s.Schema)
 	}
 
-	return []byte("null"), nil
+	return []byte("true"), nil
 }
 
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
-- 
2.43.0


From e6875a2ead5a2b2c2a73f3883a66375bd035789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 07/43] fix: merging intersects types, keeps item lists and
 finds common multiples

---
 internal/util/util.go | 30 ++++++++++++-------
 json.go               |  9 ++++++
 merge.go              | 70 +++++++++++++++++++++++++++++--------------
 3 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 5eb7fee..ce4ab65 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -187,10 +187,9 @@ func countDecimalPlaces(f float64) float64 {
 	return float64(len(s[1]))
 }
 
-// FindHcf finds the highest common factor between two float64 pointers
-func FindHcf(a *float64, b *float64) *float64 {
-	result := new(float64)
-	// Return one if the other is not set
+// FindLcm finds the lowest common multiple of two float64 pointers
+func FindLcm(a *float64, b *float64) *float64 {
+	// Return the other one if one is not set
 	if a == nil || *a == 0 {
 		return b
 	}
@@ -209,13 +208,24 @@ func FindHcf(a *float64, b *float64) *float64 {
 	}
 
 	// Normalise both to integers
-	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
-	intA := *a * scale
-	intB := *b * scale
+	scale := math.Pow(10, math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b)))
+	intA := math.Round(*a * scale)
+	intB := math.Round(*b * scale)
+
+	// Beyond the precision that can be normalised settle for any common multiple
+	if intA == 0 || intB == 0 || math.IsInf(intA*intB, 0) {
+		result := *a * *b
+		return &result
+	}
 
-	// Otherwise multiply them
-	*result = (intA * intB) / scale
-	return result
+	// Find the highest common factor of both
+	factor, remainder := intA, intB
+	for remainder > 0 {
+		factor, remainder = remainder, math.Mod(factor, remainder)
+	}
+
+	result := intA / factor * intB / scale
+	return &result
 }
 
 func GetZeroIfNil[T any](f *T, zeroValue T) T {
diff --git a/json.go b/json.go
index 894494a..a4ca342 100644
--- a/json.go
+++ b/json.go
@@ -36,6 +36,15 @@ func newMultipleTypeFromSlice(types []string) multipleType {
 	return multipleType
 }
 
+// All types allowed
+func (m *multipleType) types() []string {
+	if m.SingleType != "" {
+		return []string{m.SingleType}
+	}
+
+	return m.MultipleTypes
+}
+
 func (m *multipleType) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
diff --git a/merge.go b/merge.go
index c71727d..418425f 100644
--- a/merge.go
+++ b/merge.go
@@ -38,7 +38,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
@@ -350,7 +350,7 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	baseNode.Maximum = util.MinFloatPtr(otherNode.Maximum, baseNode.Maximum)
 	baseNode.ExclusiveMinimum = util.MaxFloatPtr(otherNode.ExclusiveMinimum, baseNode.ExclusiveMinimum)
 	baseNode.ExclusiveMaximum = util.MinFloatPtr(otherNode.ExclusiveMaximum, baseNode.ExclusiveMaximum)
-	baseNode.MultipleOf = util.FindHcf(otherNode.MultipleOf, baseNode.MultipleOf)
+	baseNode.MultipleOf = util.FindLcm(otherNode.MultipleOf, baseNode.MultipleOf)
 
 	// Merge simple string properties
 	warnIfBothSetAndAreDifferent(metadata, "pattern", baseNode.Pattern, otherNode.Pattern)
@@ -427,50 +427,74 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	return newNode, nil
 }
 
-func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+// mergeSchemaTypes intersects the types allowed by both sides ("integer" being a part of "number").
+func mergeSchemaTypes(metadata *parserMetadata, mergedType *multipleType, nodeType *multipleType) *multipleType {
 	if nodeType == nil {
-		return mergedSchemaType
+		return mergedType
 	}
 
-	mergedType := util.GetZeroIfNil(mergedSchemaType, multipleType{})
+	if mergedType == nil {
+		return nodeType
+	}
+
+	allowedTypes := []string{}
+	for _, left := range mergedType.types() {
+		for _, right := range nodeType.types() {
+			shared := left
+			if left == typeNumber && right == typeInteger {
+				shared = typeInteger
+			} else if left != right && !(left == typeInteger && right == typeNumber) {
+				continue
+			}
+
+			if !funk.ContainsString(allowedTypes, shared) {
+				allowedTypes = append(allowedTypes, shared)
+			}
+		}
+	}
 
-	if nodeType.SingleType != "" {
-		mergedType.SingleType = nodeType.SingleType
-		mergedType.MultipleTypes = nil
-	} else if len(nodeType.MultipleTypes) > 0 {
-		mergedType.MultipleTypes = nodeType.MultipleTypes
-		mergedType.SingleType = ""
+	if len(allowedTypes) == 0 {
+		warnConfigMergeError(metadata, "type", fmt.Errorf("type intersection is empty left: %v, right: %v", mergedType.types(), nodeType.types()))
+		return nodeType
 	}
 
-	return &mergedType
+	allowed := newMultipleTypeFromSlice(allowedTypes)
+	return &allowed
 }
 
-// Merges items data (Legacy support for "items" merging not supported)
+// Merges items data. Note that a list and a single schema can not be merged with each other
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
-	if nodeData == nil || nodeData.Node == nil {
+	if nodeData == nil {
 		return mergedData
 	}
 
-	mergedNodeData := util.GetZeroIfNil(mergedData, itemsData{})
-	if mergedNodeData.DisallowAdditionalItems || nodeData.DisallowAdditionalItems {
+	if mergedData == nil {
+		return nodeData
+	}
+
+	if mergedData.DisallowAdditionalItems || nodeData.DisallowAdditionalItems {
 		// If we are disallowing additional items disregard any other data
 		return &itemsData{
 			DisallowAdditionalItems: true,
 		}
 	}
 
-	if mergedNodeData.Node != nil && nodeData.Node != nil {
-		node, err := mergeSchemaNodes(parserMetadata, *mergedNodeData.Node, *nodeData.Node)
+	if mergedData.Node != nil && nodeData.Node != nil {
+		node, err := mergeSchemaNodes(parserMetadata, *mergedData.Node, *nodeData.Node)
 		if err != nil {
 			warnConfigMergeError(parserMetadata, "items", err)
-		} else {
-			mergedNodeData.Node = &node
+			return mergedData
 		}
-	} else {
-		mergedNodeData.Node = nodeData.Node
+
+		return &itemsData{Node: &node}
+	}
+
+	if mergedData.Nodes != nil && nodeData.Nodes != nil {
+		return &itemsData{Nodes: mergePrefixItems(parserMetadata, mergedData.Nodes, nodeData.Nodes)}
 	}
 
-	return &mergedNodeData
+	warnConfigMergeError(parserMetadata, "items", fmt.Errorf("a list of items can not be merged with a single schema"))
+	return mergedData
 }
 
 func mergeNodeOrFalse(metadata *parserMetadata, mergedNode *schemaNodeOrFalse, node *schemaNodeOrFalse, field string) *schemaNodeOrFalse {
-- 
2.43.0


From a61a645b02bda80cf7119bc88f45c4ce385d558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 08/43] fix: values generated for several if statements satisfy
 all of them

---
 if.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/if.go b/if.go
index 9bdbf30..2e5da7c 100644
--- a/if.go
+++ b/if.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 
+	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
 	"github.com/thoas/go-funk"
 )
 
@@ -13,6 +14,10 @@ type (
 		conditionFunc func(value any) bool
 		thenGenerator Generator
 		elseGenerator Generator
+
+		// Used to check values altered on behalf of other if statements
+		thenSchema *jsonschemaV6.Schema
+		elseSchema *jsonschemaV6.Schema
 	}
 
 	multipleIfConstraints struct {
@@ -139,9 +144,35 @@ func (s ifStatement) Compile(node schemaNode, metadata *parserMetadata, field st
 		},
 		thenGenerator: thenGenerator,
 		elseGenerator: elseGenerator,
+		thenSchema:    compileIfBody(metadata, field+"/then", s.Then),
+		elseSchema:    compileIfBody(metadata, field+"/else", s.Else),
 	}, nil
 }
 
+// Compiles the body of an if statement for validation (nil where that is not possible)
+func compileIfBody(metadata *parserMetadata, field string, bodyNode *schemaNode) *jsonschemaV6.Schema {
+	if bodyNode == nil {
+		return nil
+	}
+
+	schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *bodyNode, field)
+	if err != nil {
+		return nil
+	}
+
+	return schema
+}
+
+// Reports if a value conforms to the branch that its condition selects
+func (g ifConstraint) isSatisfiedBy(value interface{}) bool {
+	body := g.elseSchema
+	if g.conditionFunc(value) {
+		body = g.thenSchema
+	}
+
+	return body == nil || body.Validate(value) == nil
+}
+
 // Attempt to satisfy the if constraint by shoving the generated value through the then subschma
 // and attempting to satisfy the clause again with the subsequent value.
 // Returns (value, true) if the constraint was satisfied
@@ -213,6 +244,11 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 			}
 		}
 
+		// Values generated for one statement might break another one that was satisfied before
+		for _, constraint := range g.constraints {
+			allSatisfied = allSatisfied && (len(g.constraints) == 1 || constraint.isSatisfiedBy(currentValue))
+		}
+
 		if allSatisfied {
 			return currentValue
 		}
@@ -223,7 +259,7 @@ func (g multipleIfConstraints) Apply(generator Generator, generatorOptions *Gene
 	}
 
 	return fmt.Sprintf("Failed to generate a valid value for the following if constraints after %d attempts: [%s]",
-		generatorOptions.MaximumIfAttempts,
+		maxAttempts,
 		g,
 	)
 }
-- 
2.43.0


From 0460e1ffc689f62b41d89253dc696e927744c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 09/43] fix: compile every sub-schema under a name of its own

---
 schema.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 9f7ac42..ad5f685 100644
--- a/schema.go
+++ b/schema.go
@@ -14,6 +14,9 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+
+		// Number of sub schemas added so far
+		subSchemaCount int
 	}
 
 	internalOnlyLoader struct {
@@ -45,11 +48,16 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 // Parses a schema node and creates a subdocument in the root schema compiler
 // allowing for reference resolutions back into the original schema from any given sub-schema fragment
 func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node schemaNode, field string) (*jsonschemaV6.Schema, error) {
-	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s", parserMetadata.ReferenceHandler.CurrentPath, field))
+	// Different paths might be normalised to the same name so each sub schema is numbered
+	sm.subSchemaCount++
+	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
 	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
 
-	sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode)
+	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
+		return nil, err
+	}
+
 	return sm.CompilePath(currentPath)
 }
 
-- 
2.43.0


From 74cb5f06a5a648f147f7dc01f9468e93e07c0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 10/43] fix: report contradictory or unknown entries of a type
 list

---
 multiple_type.go | 1 +
 parse.go         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/multiple_type.go b/multiple_type.go
index 4a7864a..9b20068 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -24,6 +24,7 @@ func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeG
 	for _, nodeType := range node.Type.MultipleTypes {
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
+			metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("/type/%s", nodeType), err)
 			generators = append(generators, nullGenerator{})
 		} else {
 			generators = append(generators, generator)
diff --git a/parse.go b/parse.go
index 41744f9..19b955a 100644
--- a/parse.go
+++ b/parse.go
@@ -414,7 +414,7 @@ func parseType(nodeType string, node schemaNode, metadata *parserMetadata) (Gene
 	case typeNull:
 		return parseNull(node)
 	default:
-		return nullGenerator{}, nil
+		return nullGenerator{}, fmt.Errorf("unknown type %q", nodeType)
 	}
 }
 
-- 
2.43.0


From 7c2960176eaa5e521d5d5aa551a24fec84bd74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 11/43] fix: infer types from every array and object keyword
 and honour the pattern property options

---
 parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 19b955a..866310d 100644
--- a/parse.go
+++ b/parse.go
@@ -434,7 +434,7 @@ func withDefaultParseOptions(opts ParserOptions) ParserOptions {
 	}
 
 	parseOpts.RegexStringOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
-	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
+	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)
 
 	return parseOpts
 }
@@ -447,7 +447,7 @@ func inferType(node schemaNode) string {
 		node.MinProperties != nil ||
 		node.MaxProperties != nil ||
 		node.Required != nil ||
-		(node.AdditionalProperties != nil && node.AdditionalProperties.Schema != nil)
+		node.AdditionalProperties != nil
 
 	if hasObjectProps {
 		return typeObject
@@ -475,7 +475,8 @@ func inferType(node schemaNode) string {
 	}
 
 	// Array Properties
-	hasArrayProps := (node.Items != nil && node.Items.Node != nil) ||
+	hasArrayProps := node.Items != nil ||
+		node.UniqueItems != nil ||
 		node.MinItems != nil ||
 		node.MaxItems != nil ||
 		node.Contains != nil ||
-- 
2.43.0


From 05be2cc1f9b31d0b383028d5d9a2a13fb280c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 12/43] fix: merging keeps a const next to an enum

---
 merge.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/merge.go b/merge.go
index 418425f..8f882b8 100644
--- a/merge.go
+++ b/merge.go
@@ -136,16 +136,14 @@ func mergeResolveNodeRef(metadata *parserMetadata, node schemaNode) (schemaNode,
 
 // collectEnumValues returns the effective set of allowed values for a node.
 // A const is treated as a single-value enum; if both const and enum are
-// present the enum is returned (the const is redundant). Returns nil when
-// the node has neither const nor enum.
+// present they are intersected. Returns nil when the node has neither const
+// nor enum.
 func collectEnumValues(node schemaNode) *[]interface{} {
-	if node.Enum != nil {
+	if node.Const == nil {
 		return node.Enum
 	}
-	if node.Const != nil {
-		return &[]interface{}{*node.Const}
-	}
-	return nil
+
+	return intersectEnumSlices(&[]interface{}{*node.Const}, node.Enum)
 }
 
 // mergeEnumAndConst merges the allowed-value constraints (enum / const) from
@@ -171,12 +169,13 @@ func mergeEnumAndConst(metadata *parserMetadata, mergedNode schemaNode, node sch
 		result = left
 	} else {
 		result = intersectEnumSlices(left, right)
-		if len(*result) == 0 {
-			warnConfigMergeError(metadata, "enum/const", fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right))
-			mergedNode.Enum = nil
-			mergedNode.Const = nil
-			return mergedNode
-		}
+	}
+
+	if len(*result) == 0 {
+		warnConfigMergeError(metadata, "enum/const", fmt.Errorf("enum/const intersection is empty left: %v, right: %v", left, right))
+		mergedNode.Enum = nil
+		mergedNode.Const = nil
+		return mergedNode
 	}
 
 	// Single value → const, multiple values → enum.
-- 
2.43.0


From be217489b4c3c2e9fe2346f19b0ee64768399287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 13/43] fix: a dot inside a class or after an escaped backslash
 stays literal and classes may hold the null byte

---
 internal/regen/char_class.go         | 11 ++++++++---
 internal/regen/internal_generator.go | 12 ++++++++++--
 regex.go                             | 10 ----------
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 8f3d843..2724504 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -57,13 +57,18 @@ e.g.
 func parseCharClass(runes []rune) *tCharClass {
 	var totalSize int32
 	numRanges := len(runes) / 2
-	ranges := make([]tCharClassRange, numRanges, numRanges)
+	ranges := make([]tCharClassRange, 0, numRanges)
 
 	for i := 0; i < numRanges; i++ {
-		
+
 		start := runes[i*2]
 		end := runes[i*2+1]
 
+		// a range holding nothing but the null byte has no usable runes
+		if end == 0 && numRanges > 1 {
+			continue
+		}
+
 		// indicates a negative class
 		if start == 0 {
 			// doesn't make sense to generate null bytes, so all ranges must start at
@@ -73,7 +78,7 @@ func parseCharClass(runes []rune) *tCharClass {
 
 		r := newCharClassRange(start, end)
 
-		ranges[i] = r
+		ranges = append(ranges, r)
 		totalSize += r.Size
 	}
 
diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 8bcf5ad..4ddb8e4 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -31,6 +31,9 @@ var generatorFactories map[syntax.Op]generatorFactory
 
 const noBound = -1
 
+// wordRunes is the class \w, which stands in for "." when random bytes are suppressed.
+var wordRunes = []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'}
+
 func init() {
 	generatorFactories = map[syntax.Op]generatorFactory{
 		syntax.OpEmptyMatch:     opEmptyMatch,
@@ -119,6 +122,9 @@ func opLiteral(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator,
 
 func opAnyChar(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpAnyChar)
+	if args.SuppressRandomBytes {
+		return createCharClassGenerator(regexp.String(), parseCharClass(wordRunes), args)
+	}
 	return &internalGenerator{regexp.String(), func() string {
 		if args.LimitToAscii {
 			return runesToString(rune(args.rng.Intn(92) + 32))
@@ -130,10 +136,12 @@ func opAnyChar(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator,
 func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenerator, error) {
 	enforceOp(regexp, syntax.OpAnyCharNotNL)
 	var charClass *tCharClass
-	if args.LimitToAscii {
+	if args.SuppressRandomBytes {
+		charClass = parseCharClass(wordRunes)
+	} else if args.LimitToAscii {
 		charClass = newCharClass(32, 93) // Limit to printable ASCII characters.
 	} else {
-		charClass = newCharClass(0, rune(math.MaxInt32))
+		charClass = newCharClass(1, rune(math.MaxInt32))
 	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
diff --git a/regex.go b/regex.go
index c5f964b..38283c8 100644
--- a/regex.go
+++ b/regex.go
@@ -1,19 +1,9 @@
 package chaff
 
 import (
-	"strings"
-
 	"github.com/ryanolee/go-chaff/internal/regen"
 )
 
-const fullStringLiteral = "[~{FULL_STOP_LITERAL}~]"
-
 func newRegexGenerator(pattern string, opts *regen.GeneratorArgs) (regen.Generator, error) {
-	if opts.SuppressRandomBytes {
-		pattern = strings.ReplaceAll(pattern, "\\.", fullStringLiteral)
-		pattern = strings.ReplaceAll(pattern, ".", "\\w")
-		pattern = strings.ReplaceAll(pattern, fullStringLiteral, "\\.")
-	}
-
 	return regen.NewGenerator(pattern, opts)
 }
-- 
2.43.0


From bd29a27b82fa61ea96853663c9ad3df383d01072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 14/43] fix: a combination branch that can not be satisfied is
 left out instead of producing null

---
 combination.go | 13 ++++++++-----
 merge.go       |  1 +
 parse.go       |  3 +++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/combination.go b/combination.go
index 5f18c12..d3177bb 100644
--- a/combination.go
+++ b/combination.go
@@ -56,9 +56,11 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 			baseNode.AnyOf = nil
 		}
 
+		mergeConflicts := metadata.MergeConflicts
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
-		if err != nil {
-			generators = append(generators, nullGenerator{})
+
+		// A branch at odds with its surroundings can not be satisfied
+		if err != nil || metadata.MergeConflicts > mergeConflicts {
 			continue
 		}
 
@@ -67,12 +69,15 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 		if err != nil {
 			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to parse %s sub-schema: %w", nodeType, err))
-			generators = append(generators, nullGenerator{})
 		} else {
 			generators = append(generators, generator)
 		}
 	}
 
+	if len(generators) == 0 {
+		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
+	}
+
 	if len(oneOf) > 1 {
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
@@ -103,8 +108,6 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 	if len(generators) == 1 {
 		return generators[0], nil
-	} else if len(generators) == 0 {
-		return nullGenerator{}, fmt.Errorf("no valid generators could be created for %s", nodeType)
 	}
 
 	return combinationGenerator{
diff --git a/merge.go b/merge.go
index 8f882b8..09d6efd 100644
--- a/merge.go
+++ b/merge.go
@@ -375,6 +375,7 @@ func warnIfBothSetAndAreDifferent[T comparable](metadata *parserMetadata, field
 }
 
 func warnConfigMergeError(metadata *parserMetadata, field string, err error) {
+	metadata.MergeConflicts++
 	metadata.Errors.AddErrorWithSubpath("/config_merge_error", fmt.Errorf("error merging field %s: %w", field, err))
 }
 
diff --git a/parse.go b/parse.go
index 866310d..d40e9e5 100644
--- a/parse.go
+++ b/parse.go
@@ -80,6 +80,9 @@ type (
 		ReferenceResolver referenceResolver
 		RootNode          schemaNode
 
+		// Number of conflicts found while merging nodes so far
+		MergeConflicts int
+
 		// Global merge depth for the schema
 		MergeDepth int
 
-- 
2.43.0


From 7c882df91bb32e5afe0de2cd73da3152cd28154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 15/43] fix: several anyOf or oneOf keywords merged by allOf
 all hold

---
 combination.go |  7 +++++++
 merge.go       | 26 ++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/combination.go b/combination.go
index d3177bb..1b76bf7 100644
--- a/combination.go
+++ b/combination.go
@@ -82,7 +82,14 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 		stubNode := newEmptySchemaNode()
 		resolvedNodes := []schemaNode{}
 		for i, node := range oneOf {
+			mergeConflicts := metadata.MergeConflicts
 			resolvedNode, err := mergeSchemaNodes(metadata, node)
+
+			// Branches that contradict themselves match nothing
+			if metadata.MergeConflicts > mergeConflicts {
+				resolvedNode = node
+			}
+
 			if err != nil {
 				metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("oneOf/%d", i), fmt.Errorf("failed to resolve oneOf sub-schema: %w", err))
 				continue
diff --git a/merge.go b/merge.go
index 09d6efd..8e531a4 100644
--- a/merge.go
+++ b/merge.go
@@ -55,8 +55,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
 		// Merge combinators
-		mergedNode.OneOf = util.MergeSlicePtrs(mergedNode.OneOf, node.OneOf)
-		mergedNode.AnyOf = util.MergeSlicePtrs(mergedNode.AnyOf, node.AnyOf)
+		mergedNode.OneOf = mergeCombinations(mergedNode.OneOf, node.OneOf)
+		mergedNode.AnyOf = mergeCombinations(mergedNode.AnyOf, node.AnyOf)
 		mergedNode.AllOf = util.MergeSlicePtrs(mergedNode.AllOf, node.AllOf)
 
 		// Merge conditionals
@@ -368,6 +368,28 @@ func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNo
 	return baseNode
 }
 
+// mergeCombinations merges the branches of two oneOf (or two anyOf) keywords that apply
+// at the same time. Every pair of branches is a candidate: just as many pairs match a value
+// as branches match it on the left times branches on the right.
+func mergeCombinations(left *[]schemaNode, right *[]schemaNode) *[]schemaNode {
+	if left == nil {
+		return right
+	}
+
+	if right == nil {
+		return left
+	}
+
+	pairs := []schemaNode{}
+	for _, leftNode := range *left {
+		for _, rightNode := range *right {
+			pairs = append(pairs, schemaNode{AllOf: &[]schemaNode{leftNode, rightNode}})
+		}
+	}
+
+	return &pairs
+}
+
 func warnIfBothSetAndAreDifferent[T comparable](metadata *parserMetadata, field string, a *T, b *T) {
 	if a != nil && b != nil && *a != *b {
 		warnConfigMergeError(metadata, field, fmt.Errorf("both values set during merge (%v vs %v)", *a, *b))
-- 
2.43.0


From bb2aa7792eeca26c468cf53e4f508ed93c06bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 16/43] fix: values generated for a negation never match the
 negated schema

Limits are negated exactly, types are only excluded where nothing else in the
negation applies to them and whatever can not be resolved while parsing is
checked on the generated value.
---
 constraint.go |  14 +++
 merge.go      |  10 +-
 not.go        | 308 ++++++++++++++++++++------------------------------
 3 files changed, 142 insertions(+), 190 deletions(-)

diff --git a/constraint.go b/constraint.go
index 4e3ac90..fc6300f 100644
--- a/constraint.go
+++ b/constraint.go
@@ -44,6 +44,9 @@ type (
 
 		// Property based constraints
 		mustNotHaveProperties []string
+
+		// Schemas that the generated value must not match
+		notMatchingSchemas []*jsonschemaV6.Schema
 	}
 
 	constraint interface {
@@ -102,6 +105,10 @@ func (cc *constraintCollection) AddMustNotHaveProperties(properties []string) {
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, properties...)
 }
 
+func (cc *constraintCollection) AddNotMatchingSchemaConstraint(schema *jsonschemaV6.Schema) {
+	cc.notMatchingSchemas = append(cc.notMatchingSchemas, schema)
+}
+
 // Merge incorporates all constraints from another constraintCollection into this one.
 func (cc *constraintCollection) Merge(other *constraintCollection) {
 	if other == nil {
@@ -117,6 +124,7 @@ func (cc *constraintCollection) Merge(other *constraintCollection) {
 		cc.notValueConstraints[k] = v
 	}
 	cc.mustNotHaveProperties = append(cc.mustNotHaveProperties, other.mustNotHaveProperties...)
+	cc.notMatchingSchemas = append(cc.notMatchingSchemas, other.notMatchingSchemas...)
 }
 
 func (cc *constraintCollection) String() string {
@@ -172,6 +180,12 @@ func (mc *constraintCollection) Compile() *multiConstraint {
 		}
 	}
 
+	for i, schema := range mc.notMatchingSchemas {
+		constraintFunctions[fmt.Sprintf("NotSchema: %d", i)] = func(value interface{}) bool {
+			return schema.Validate(value) != nil
+		}
+	}
+
 	return &multiConstraint{functions: constraintFunctions}
 }
 
diff --git a/merge.go b/merge.go
index 8e531a4..16b5376 100644
--- a/merge.go
+++ b/merge.go
@@ -70,11 +70,11 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// .constraints on sub-nodes). Accumulate them so that sequential merges
 		// don't lose earlier exclusions.
 		if node.constraints != nil {
-			if mergedNode.constraints == nil {
-				mergedNode.constraints = node.constraints
-			} else {
-				mergedNode.constraints.Merge(node.constraints)
-			}
+			// The collections of the merged nodes are left untouched
+			constraints := newConstraintCollection()
+			constraints.Merge(mergedNode.constraints)
+			constraints.Merge(node.constraints)
+			mergedNode.constraints = &constraints
 		}
 
 		// If the node had a circular $ref that couldn't be inlined during merge,
diff --git a/not.go b/not.go
index 441274f..5d49e7d 100644
--- a/not.go
+++ b/not.go
@@ -3,6 +3,7 @@ package chaff
 import (
 	"fmt"
 	"math"
+	"reflect"
 
 	"github.com/ryanolee/go-chaff/internal/util"
 	"github.com/thoas/go-funk"
@@ -82,6 +83,7 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	currentNode, allConstraints := applyNotConstraints(metadata, flatNode, notNodes)
+	addNotSchemaConstraints(metadata, &allConstraints, rawNotNodes)
 
 	internalGenerator, err := parseNode(currentNode, metadata)
 	if err != nil {
@@ -161,6 +163,25 @@ func applyNotConstraints(metadata *parserMetadata, baseNode schemaNode, notNodes
 	return currentNode, allConstraints
 }
 
+// addNotSchemaConstraints makes sure that generated values do not match any of the
+// negated schemas, given that not everything in them can be resolved statically.
+func addNotSchemaConstraints(metadata *parserMetadata, constraints *constraintCollection, rawNotNodes []*schemaNode) {
+	for i, raw := range rawNotNodes {
+		if raw == nil {
+			continue
+		}
+
+		path := fmt.Sprintf("not/%d", i)
+		schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, *raw, path)
+		if err != nil {
+			warnField(metadata, path, fmt.Errorf("failed to compile not sub schema: %w", err))
+			continue
+		}
+
+		constraints.AddNotMatchingSchemaConstraint(schema)
+	}
+}
+
 // Merges two nodes, one with candidate
 func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (schemaNode, *constraintCollection) {
 	var newNode schemaNode
@@ -273,11 +294,7 @@ func notApplyString(metadata *parserMetadata, newNode *schemaNode, constraintCol
 //   - exclusiveMaximum
 func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, constraintCollection *constraintCollection, node schemaNode, notNode schemaNode) error {
 
-	// Handle integer verses float64 offsets
-	offsetIncrement := infinitesimal
-	if newNode.Type != nil && nodeTypeContains(newNode, string(generatorTypeInteger)) {
-		offsetIncrement = 1
-	}
+	couldBeInteger := nodeTypeContains(newNode, string(generatorTypeInteger))
 
 	// Handle min/max
 	min, max, alturnateMin, alturnateMax := resolveBoundsFloat64(
@@ -287,7 +304,7 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		node.Maximum, node.ExclusiveMaximum,
 		notNode.Minimum, notNode.ExclusiveMinimum,
 		notNode.Maximum, notNode.ExclusiveMaximum,
-		offsetIncrement,
+		couldBeInteger,
 	)
 
 	newNode.Minimum = min
@@ -297,8 +314,7 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	multipleOf := util.GetZeroIfNil(node.MultipleOf, 0)
 	notMultipleOf := util.GetZeroIfNil(notNode.MultipleOf, 0)
 
-	couldBeInteger := nodeTypeContains(newNode, string(generatorTypeInteger))
-	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger))
+	explicitDenyInteger := nodeTypeContains(&notNode, string(generatorTypeInteger)) && !notNodeHasValueConstraints(notNode, typeInteger)
 
 	if multipleOf == 0 && couldBeInteger && !explicitDenyInteger {
 		multipleOf = 1
@@ -321,23 +337,29 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		warnField(metadata, "not/multipleOf", fmt.Errorf("not/multipleOf cannot be a multiple of multipleOf"))
 	} else if notMultipleOf != 0 && notMultipleOf <= infinitesimal {
 		warnField(metadata, "not/multipleOf", fmt.Errorf("multipleOf is too small to enforce in a Not Clause"))
+	} else if multipleOf == 0 {
+		// Without any multiples to pick from the values themselves are checked after they are generated
+		newNode.MultipleOf = node.MultipleOf
 	} else if notMultipleOf != 0 {
 		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
 		// in order to create a valid range of values that can be generated.
 		validValues := []float64{}
-		if multipleOf == 0 {
-			multipleOf = infinitesimal
-		}
 
-		min := util.GetZeroIfNil(min, lowerBound)
-		max := util.GetZeroIfNil(max, upperBound)
+		// Without a lower bound start a fixed number of multiples below the upper one
+		lower := util.GetZeroIfNil(min, 0)
+		upper := util.GetZeroIfNil(max, upperBound)
+		if min == nil && max != nil {
+			lower = upper - multipleOf*100
+		}
 
-		validValues, err := computeValidMultipleOfValues(metadata, min, max, multipleOf, notMultipleOf)
-		if err != nil && alturnateMin != nil || alturnateMax != nil {
-			alturnateMinVal := util.GetZeroIfNil(alturnateMin, lowerBound)
-			alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
+		validValues, err := computeValidMultipleOfValues(metadata, lower, upper, multipleOf, notMultipleOf)
+		if err != nil {
+			if alturnateMin != nil || alturnateMax != nil {
+				alturnateMinVal := util.GetZeroIfNil(alturnateMin, 0)
+				alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
 
-			validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+				validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+			}
 
 			// In the event both upper bound computations fail, we warn and exit given there is not
 			// more we can reasonably do to find valid values
@@ -502,7 +524,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		warnField(metadata, "not/uniqueItems", fmt.Errorf("cannot have 'not/uniqueItems' set to true. It is very difficult to calculate items that match all clauses and are identical throughout the array"))
 	}
 
-	newNode.UniqueItems = resolveBool("not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
+	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
@@ -651,6 +673,11 @@ func applyUnsupportedNotFields(metadata *parserMetadata, newNode *schemaNode, co
 
 // Merging subschemas from nodes and not nodes
 func notMergeSubNode(scope string, metadata *parserMetadata, node schemaNode, notNode schemaNode) schemaNode {
+	// Nothing to negate — preserve the original node as-is.
+	if reflect.DeepEqual(notNode, schemaNode{}) {
+		return node
+	}
+
 	// Handle simplification of not nodes first
 	metadata.ReferenceHandler.PushToPath(scope)
 	defer metadata.ReferenceHandler.PopFromPath(scope)
@@ -768,45 +795,50 @@ func notMergePrefixNodes(metadata *parserMetadata, nodePrefixItemsPtr *[]schemaN
 }
 
 // notNodeHasValueConstraints checks whether a not-node has value-level constraints
-// beyond just a type declaration. When the not-node has constraints like minLength,
-// maxLength, pattern, minimum, maximum, properties, items, etc., the negation is
-// about VALUE exclusion (e.g., "not a string shorter than 5") rather than TYPE
-// exclusion (e.g., "not a string at all"). In that case the type should be kept
+// on values of a type beyond just a type declaration. When the not-node has constraints
+// like minLength, maxLength, pattern, minimum, maximum, properties, items, etc., the
+// negation is about VALUE exclusion (e.g., "not a string shorter than 5") rather than
+// TYPE exclusion (e.g., "not a string at all"). In that case the type should be kept
 // and the constraint-level not handling (notApplyString, notApplyNumber, etc.)
 // will apply the narrowed bounds.
-func notNodeHasValueConstraints(notNode schemaNode) bool {
-	// String constraints
-	if notNode.MinLength != nil || notNode.MaxLength != nil || notNode.Pattern != nil || notNode.Format != nil {
-		return true
-	}
-	// Number constraints
-	if notNode.Minimum != nil || notNode.Maximum != nil || notNode.ExclusiveMinimum != nil || notNode.ExclusiveMaximum != nil || notNode.MultipleOf != nil {
+func notNodeHasValueConstraints(notNode schemaNode, nodeType string) bool {
+	// Value constraints and everything that is not resolved statically
+	if notNode.Const != nil || notNode.Enum != nil ||
+		notNode.Ref != nil || notNode.Not != nil || len(notNode.mergedNot) > 0 ||
+		notNode.AllOf != nil || notNode.AnyOf != nil || notNode.OneOf != nil ||
+		notNode.If != nil || len(notNode.mergedIf) > 0 {
 		return true
 	}
-	// Object constraints
-	if notNode.Properties != nil || notNode.Required != nil || notNode.MinProperties != nil || notNode.MaxProperties != nil {
-		return true
-	}
-	// Array constraints
-	if notNode.Items != nil || notNode.MinItems != nil || notNode.MaxItems != nil || notNode.PrefixItems != nil {
-		return true
-	}
-	// Value constraints
-	if notNode.Const != nil || notNode.Enum != nil {
-		return true
+
+	switch nodeType {
+	case typeString:
+		return notNode.MinLength != nil || notNode.MaxLength != nil || notNode.Pattern != nil || notNode.Format != nil
+	case typeNumber, typeInteger:
+		return notNode.Minimum != nil || notNode.Maximum != nil ||
+			notNode.ExclusiveMinimum != nil || notNode.ExclusiveMaximum != nil || notNode.MultipleOf != nil
+	case typeObject:
+		return notNode.Properties != nil || notNode.AdditionalProperties != nil || notNode.PatternProperties != nil ||
+			notNode.Required != nil || notNode.MinProperties != nil || notNode.MaxProperties != nil ||
+			notNode.DependentRequired != nil || notNode.DependentSchemas != nil
+	case typeArray:
+		return notNode.Items != nil || notNode.AdditionalItems != nil || notNode.UnevaluatedItems != nil || notNode.PrefixItems != nil ||
+			notNode.MinItems != nil || notNode.MaxItems != nil || notNode.UniqueItems != nil ||
+			notNode.Contains != nil || notNode.MinContains != nil || notNode.MaxContains != nil
+	default:
+		return false
 	}
-	return false
 }
 
 // Resolves the type for a node given the not node types
 func resolveType(node schemaNode, notNode schemaNode) (multipleType, error) {
 	nodeTypes := getNodeTypes(node, false)
 	notNodeTypes := expandNotTypes(getNodeTypes(notNode, true))
-	hasValueConstraints := notNodeHasValueConstraints(notNode)
 	candidateNodeTypes := []string{}
 
 	for _, nodeType := range nodeTypes {
-		if funk.ContainsString(notNodeTypes, nodeType) && !hasValueConstraints {
+		// A not node without a type is about every type
+		isExcluded := len(notNodeTypes) == 0 || funk.ContainsString(notNodeTypes, nodeType)
+		if isExcluded && !notNodeHasValueConstraints(notNode, nodeType) {
 			// This is a pure type exclusion (e.g., "not a string at all") — skip the type.
 			continue
 		}
@@ -869,7 +901,6 @@ func nodeTypeContains(node *schemaNode, candidateType string) bool {
 }
 
 // Given we shift the bounds +1 or -1 we need to ensure we don't overflow
-const minInt = math.MinInt32 + 1
 const maxInt = math.MaxInt32 - 1
 
 func resolveBoundsInt(metadata *parserMetadata,
@@ -883,55 +914,33 @@ func resolveBoundsInt(metadata *parserMetadata,
 		return minPtr, maxPtr
 	}
 
-	// Edge case: No original bounds -> Select upper bound
-	if minPtr == nil && maxPtr == nil {
-		if notMinPtr != nil {
-			newMax := *notMinPtr - 1
-			return nil, maxToNil(newMax)
-		}
-
-		if notMaxPtr != nil {
-			newMin := *notMaxPtr + 1
-			return minToNil(newMin), nil
-		}
-
-		return nil, nil
-	}
-
-	// Inclusive bounds
-	x1 := util.GetZeroIfNil(minPtr, minInt)
+	// Inclusive bounds (counts and lengths are never negative)
+	x1 := util.GetZeroIfNil(minPtr, 0)
 	x2 := util.GetZeroIfNil(maxPtr, maxInt)
 
-	// Not bounds are inverted (notMax -> min, notMin -> max)
-	y1 := util.GetZeroIfNil(notMinPtr, minInt)
-	y2 := util.GetZeroIfNil(addIfNotNilInt(notMaxPtr, 1), maxInt)
+	// Excluded range (inclusive)
+	y1 := util.GetZeroIfNil(notMinPtr, 0)
+	y2 := util.GetZeroIfNil(notMaxPtr, maxInt)
 
-	// No bounds overlap return original
-	if y2 < x1 || y1 > x2 {
-		return minToNil(x1), maxToNil(x2)
-	}
-
-	// No valid range
-	if y1 <= x1 && y2 >= x2 {
-		warnField(metadata, maxFieldName, fmt.Errorf("while resolving not clauses %s and %s, no valid range exists that include [%d, %d] that excludes [%d, %d]", minFieldName, maxFieldName, x1, y1, y2, y1))
+	// Nothing to exclude return original
+	if y2 < y1 || y2 < x1 || y1 > x2 {
 		return minPtr, maxPtr
 	}
 
-	// Check lower side for overlap
-	if y1 <= x1 && y2 < x2 {
-		newMin := y2 + 1
-		return minToNil(newMin), maxToNil(x2)
+	// Prefer what is left below the excluded range
+	if y1 > x1 {
+		newMax := y1 - 1
+		return minPtr, &newMax
 	}
 
-	// Check upper overlap
-	if y1 > x1 && y2 >= x2 {
-		newMax := y1 - 1
-		return minToNil(x1), maxToNil(newMax)
+	// Otherwise use what is left above it
+	if y2 < x2 {
+		newMin := y2 + 1
+		return &newMin, maxPtr
 	}
 
-	// Overlap in middle - prefer lower overlap
-	newMax := y1 - 1
-	return minToNil(x1), maxToNil(newMax)
+	warnField(metadata, maxFieldName, fmt.Errorf("while resolving not clauses %s and %s, no valid range exists that include [%d, %d] that excludes [%d, %d]", minFieldName, maxFieldName, x1, x2, y1, y2))
+	return minPtr, maxPtr
 }
 
 // Resolve float64 bounds with exclusive/inclusive handling for not nodes and original nodes
@@ -942,122 +951,52 @@ func resolveBoundsFloat64(metadata *parserMetadata,
 	maxPtr *float64, maxExclusivePtr *float64,
 	notMinPtr *float64, notMinExclusivePtr *float64,
 	notMaxPtr *float64, notMaxExclusivePtr *float64,
-	offsetIncrement float64,
+	mustBeAnInteger bool,
 ) (*float64, *float64, *float64, *float64) {
-	x1 := util.MaxFloatPtr(minPtr, addIfNotNilFloat64(minExclusivePtr, offsetIncrement))
-	x2 := util.MinFloatPtr(maxPtr, addIfNotNilFloat64(maxExclusivePtr, -offsetIncrement))
+	x1 := util.MaxFloatPtr(minPtr, nextValueAbove(minExclusivePtr, mustBeAnInteger))
+	x2 := util.MinFloatPtr(maxPtr, nextValueBelow(maxExclusivePtr, mustBeAnInteger))
 
-	y1 := util.MaxFloatPtr(notMinPtr, addIfNotNilFloat64(notMinExclusivePtr, offsetIncrement))
-	y2 := util.MinFloatPtr(notMaxPtr, addIfNotNilFloat64(notMaxExclusivePtr, -offsetIncrement))
+	// Excluded range (inclusive)
+	y1 := util.MaxFloatPtr(notMinPtr, nextValueAbove(notMinExclusivePtr, mustBeAnInteger))
+	y2 := util.MinFloatPtr(notMaxPtr, nextValueBelow(notMaxExclusivePtr, mustBeAnInteger))
 
 	// Edge case: No not constraints
 	if y1 == nil && y2 == nil {
 		return x1, x2, nil, nil
 	}
 
-	// Edge case: No original bounds -> Select upper bound
-	if x1 == nil && x2 == nil {
-		if y1 != nil {
-			newMax := *y1 - offsetIncrement
-			return nil, &newMax, nil, nil
-		}
-
-		if y2 != nil {
-			newMin := *y2 + offsetIncrement
-			return &newMin, nil, nil, nil
-		}
-
-		return nil, nil, nil, nil
-	}
-
 	// Resolve to numeric values
 	x1Val := util.GetZeroIfNil(x1, lowerBound)
 	x2Val := util.GetZeroIfNil(x2, upperBound)
+	if mustBeAnInteger {
+		x1Val, x2Val = math.Ceil(x1Val), math.Floor(x2Val)
+	}
 
 	y1Val := util.GetZeroIfNil(y1, lowerBound)
 	y2Val := util.GetZeroIfNil(y2, upperBound)
 
-	// No bounds overlap return original
-	if y2Val < x1Val || y1Val > x2Val {
-		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
-	}
-
-	// No valid range
-	if y1Val <= x1Val && y2Val >= x2Val {
-		warnField(metadata, maxFieldName, fmt.Errorf("while resolving not clauses %s and %s, no valid range exists that include [%f, %f] that excludes [%f, %f]", minFieldName, maxFieldName, x1Val, y1Val, y2Val, y1Val))
-		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
-	}
-
-	// Check lower side for overlap
-	if y1Val <= x1Val && y2Val < x2Val {
-		newMin := y2Val + offsetIncrement
-		return minToNilFloat64(newMin, offsetIncrement), maxToNilFloat64(x2Val, offsetIncrement), nil, nil
-	}
-
-	// Check upper overlap
-	if y1Val > x1Val && y2Val >= x2Val {
-		newMax := y1Val - offsetIncrement
-		return minToNilFloat64(x1Val, offsetIncrement), maxToNilFloat64(newMax, offsetIncrement), nil, nil
-	}
-
-	// Overlap in middle give both bounds
-	lowerBoundMin := x1Val
-	lowerBoundMax := y1Val - offsetIncrement
-
-	upperBoundMin := y2Val + offsetIncrement
-	upperBoundMax := x2Val
-	return minToNilFloat64(lowerBoundMin, offsetIncrement), maxToNilFloat64(lowerBoundMax, offsetIncrement), minToNilFloat64(upperBoundMin, offsetIncrement), maxToNilFloat64(upperBoundMax, offsetIncrement)
-
-}
-
-// Helper to convert min/max int to nil where unbounded
-// We use a small buffer to avoid edge cases to do with shifted bounds
-func minToNil(min int) *int {
-	if min <= minInt+10 {
-		return nil
-	}
-
-	return &min
-}
-
-func maxToNil(max int) *int {
-	if max >= maxInt-10 {
-		return nil
-	}
-	return &max
-}
-
-func minToNilFloat64(min float64, offsetIncrement float64) *float64 {
-	if min <= lowerBound+(offsetIncrement*10) {
-		return nil
-	}
-
-	return &min
-}
-
-func maxToNilFloat64(max float64, offsetIncrement float64) *float64 {
-	if max >= upperBound-(offsetIncrement*10) {
-		return nil
-	}
-	return &max
-}
-
-func addIfNotNilFloat64(value *float64, addition float64) *float64 {
-	if value == nil {
-		return nil
+	// Nothing to exclude return original
+	if y2Val < y1Val || y2Val < x1Val || y1Val > x2Val {
+		return x1, x2, nil, nil
 	}
 
-	newValue := *value + float64(addition)
-	return &newValue
-}
+	// What is left on either side of the excluded range
+	lowerMax := nextValueBelow(&y1Val, mustBeAnInteger)
+	upperMin := nextValueAbove(&y2Val, mustBeAnInteger)
+	hasLower := y1 != nil && *lowerMax >= x1Val
+	hasUpper := y2 != nil && *upperMin <= x2Val
 
-func addIfNotNilInt(value *int, addition int) *int {
-	if value == nil {
-		return nil
+	switch {
+	case hasLower && hasUpper:
+		return x1, lowerMax, upperMin, x2
+	case hasLower:
+		return x1, lowerMax, nil, nil
+	case hasUpper:
+		return upperMin, x2, nil, nil
 	}
 
-	newValue := *value + int(addition)
-	return &newValue
+	warnField(metadata, maxFieldName, fmt.Errorf("while resolving not clauses %s and %s, no valid range exists that include [%f, %f] that excludes [%f, %f]", minFieldName, maxFieldName, x1Val, x2Val, y1Val, y2Val))
+	return x1, x2, nil, nil
 }
 
 func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max float64, multipleOf float64, notMultipleOf float64) ([]float64, error) {
@@ -1068,9 +1007,8 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	validValues := []float64{}
 
 	// Start from the first multiple of multipleOf that is >= min.
-	// Guard against overflow: when multipleOf is tiny (e.g. infinitesimal)
-	// and min is large, min/multipleOf overflows to ±Inf, so fall back to
-	// starting from min directly
+	// Guard against overflow: when multipleOf is tiny and min is large,
+	// min/multipleOf overflows to ±Inf, so fall back to starting from min directly
 	start := min
 	if multipleOf > infinitesimal {
 		aligned := math.Ceil(min/multipleOf) * multipleOf
@@ -1096,13 +1034,13 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	return validValues, nil
 }
 
-func resolveBool(fieldName string, value *bool, notValue *bool) *bool {
+func resolveBool(metadata *parserMetadata, fieldName string, value *bool, notValue *bool) *bool {
 	if value == nil && notValue == nil {
 		return nil
 	}
 
 	if value != nil && notValue != nil && *value == *notValue {
-		warnField(nil, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
+		warnField(metadata, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
 		return value
 	}
 
-- 
2.43.0


From cea15d100a1e814ee43c3107b762fb3af108027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 17/43] fix: references can be merged when no base location is
 given

The root document was registered under another name than the one references
are resolved against.
---
 document.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index e17130a..8b340e0 100644
--- a/document.go
+++ b/document.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"net/url"
 	"os"
-	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -85,14 +84,14 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 			opts.RelativeTo = "file://" + cwd + "/"
 		}
 
-		resolvedRootDocumentId = filepath.Join(opts.RelativeTo, rootDocumentId)
+		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
 	} else {
 		resolvedRootDocumentId = opts.RelativeTo
 	}
 
 	resolver := &documentResolver{
 		// Setup the root document
-		documentCurrentlyBeingParsedId: opts.RelativeTo,
+		documentCurrentlyBeingParsedId: resolvedRootDocumentId,
 		parsedExternalDocuments: map[string]bool{
 			resolvedRootDocumentId: true,
 		},
-- 
2.43.0


From ad90162aa852ae45506d8f4c337ca18ce2058e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 18/43] fix: reference paths designate exactly the schema they
 point to

---
 object.go         |  4 ++--
 reference_path.go | 43 ++++++++++++++++++++++++++++++++-----------
 root.go           |  4 ++--
 walk.go           |  2 +-
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/object.go b/object.go
index bc618b4..06908b1 100644
--- a/object.go
+++ b/object.go
@@ -109,7 +109,7 @@ func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Gener
 
 	ref := metadata.ReferenceHandler
 	for name, prop := range *node.Properties {
-		refPath := fmt.Sprintf("/properties/%s", name)
+		refPath := fmt.Sprintf("/properties/%s", escapeReferencePathToken(name))
 		propGenerator, err := ref.ParseNodeInScope(refPath, prop, metadata)
 		if err != nil {
 			propGenerator = nullGenerator{}
@@ -146,7 +146,7 @@ func parsePatternProperties(node schemaNode, metadata *parserMetadata) (map[stri
 	ref := metadata.ReferenceHandler
 
 	for regex, property := range *node.PatternProperties {
-		refPath := fmt.Sprintf("/patternProperties/%s", regex)
+		refPath := fmt.Sprintf("/patternProperties/%s", escapeReferencePathToken(regex))
 
 		// Parse the schema node
 		propGenerator, err := ref.ParseNodeInScope(refPath, property, metadata)
diff --git a/reference_path.go b/reference_path.go
index 7c4a2bc..5dd6996 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -22,11 +22,21 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
 	}
 
+	if refPath == "" {
+		return node, nil
+	}
+
+	if strings.HasSuffix(refPath, "/") {
+		return nil, fmt.Errorf("[%s] Reference path %s ends in an empty token", resolvedPath, refPath)
+	}
+
+	isRoot := resolvedPath == ""
 	pathPart, path := getReferencePathToken(refPath)
 	resolvedPath = resolvedPath + "/" + pathPart
 
-	if path == "" {
-		return node, nil
+	// Only the very first token names the document itself
+	if (pathPart == "#") != isRoot {
+		return nil, fmt.Errorf("[%s] Invalid reference path", resolvedPath)
 	}
 
 	switch pathPart {
@@ -36,14 +46,14 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "patternProperties":
 		return resolveReferenceProperty(node.PatternProperties, path, resolvedPath)
 	case "additionalProperties":
-		if node.AdditionalProperties.IsFalse {
-			return nil, fmt.Errorf("[%s] No schema node for additional properties", resolvedPath)
-		}
-
-		return resolveSubReferencePath(node.AdditionalProperties.Schema, path, resolvedPath)
+		return resolveFalseOrSchema(node.AdditionalProperties, path, resolvedPath)
 
 	// Array
 	case "items":
+		if node.Items == nil {
+			return nil, fmt.Errorf("[%s] No items defined", resolvedPath)
+		}
+
 		part, _ := getReferencePathToken(path)
 		match, err := regexp.MatchString(`^\d+$`, part)
 		if !match || err != nil {
@@ -93,8 +103,8 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 }
 
 func resolveFalseOrSchema(node *schemaNodeOrFalse, path string, resolvedPath string) (*schemaNode, error) {
-	if node.IsFalse {
-		return nil, fmt.Errorf("[%s] No schema node for %s node is false", resolvedPath, path)
+	if node == nil || node.IsFalse {
+		return nil, fmt.Errorf("[%s] No schema node for %s node is missing or false", resolvedPath, path)
 	}
 
 	return resolveSubReferencePath(node.Schema, path, resolvedPath)
@@ -107,6 +117,7 @@ func resolveReferenceProperty(nodes *map[string]schemaNode, path string, resolve
 	}
 
 	propertyName, path := getReferencePathToken(path)
+	propertyName = unescapeReferencePathToken(propertyName)
 	resolvedPath = resolvedPath + "/" + propertyName
 	node, ok := (*nodes)[propertyName]
 	if !ok {
@@ -125,11 +136,11 @@ func resolveReferenceSlice(nodes *[]schemaNode, path string, resolvedPath string
 	part, itemPath := getReferencePathToken(path)
 	resolvedPath = resolvedPath + "/" + part
 	partInt, err := strconv.Atoi(part)
-	if err != nil {
+	if err != nil || strconv.Itoa(partInt) != part {
 		return nil, fmt.Errorf("[%s] Invalid array index (Must be a number) %s", resolvedPath, part)
 	}
 
-	if len(*nodes) > partInt || partInt < 0 {
+	if partInt < 0 || partInt >= len(*nodes) {
 		return nil, fmt.Errorf("[%s] Array index out of bounds %d", resolvedPath, partInt)
 	}
 
@@ -149,3 +160,13 @@ func getReferencePathToken(pathRef string) (string, string) {
 	refPathParts := pathDeliminator.Split(pathRef, 2)
 	return refPathParts[0], refPathParts[1]
 }
+
+// Decodes the "~1" and "~0" escapes of a JSON pointer token
+func unescapeReferencePathToken(token string) string {
+	return strings.NewReplacer("~1", "/", "~0", "~").Replace(token)
+}
+
+// Encodes a key as a JSON pointer token
+func escapeReferencePathToken(key string) string {
+	return strings.NewReplacer("~", "~0", "/", "~1").Replace(key)
+}
diff --git a/root.go b/root.go
index adb0591..93b2195 100644
--- a/root.go
+++ b/root.go
@@ -52,14 +52,14 @@ func parseDefinitions(path string, metadata *parserMetadata, definitions map[str
 	ref := metadata.ReferenceHandler
 	generators := make(map[string]Generator)
 	for key, value := range definitions {
-		refPath := fmt.Sprintf("/%s/%s", path, key)
+		refPath := fmt.Sprintf("/%s/%s", path, escapeReferencePathToken(key))
 
 		// Pass a synthetic schema node whose Ref points to this definition
 		// so that ParseNodeInScope tracks it on the resolution stack. This
 		// ensures any $ref back to this definition is detected as a cycle
 		// during merge, preventing infinite recursion when the definition
 		// references itself.
-		defPath := fmt.Sprintf("#/%s/%s", path, key)
+		defPath := "#" + refPath
 		generator, _ := ref.ParseNodeInScope(refPath, value, metadata, schemaNode{Ref: &defPath})
 
 		generators[key] = generator
diff --git a/walk.go b/walk.go
index a6f0dc5..541f4bf 100644
--- a/walk.go
+++ b/walk.go
@@ -9,7 +9,7 @@ func walkSchema(node map[string]interface{}, path string, visit func(node map[st
 	visit(node, path)
 
 	for key, value := range node {
-		childPath := path + "/" + key
+		childPath := path + "/" + escapeReferencePathToken(key)
 
 		if obj, ok := value.(map[string]interface{}); ok {
 			walkSchema(obj, childPath, visit)
-- 
2.43.0


From de13a5d7c5f9fa044833e2bcb13d6c954a8f5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 19/43] fix: references to nested schemas and root identifiers
 resolve and unknown documents are reported

---
 document.go         | 88 +++++++++++++++++++++++++++++++++++++--------
 parse.go            | 12 ++++---
 reference.go        |  2 ++
 reference_hander.go | 15 ++++++++
 4 files changed, 98 insertions(+), 19 deletions(-)

diff --git a/document.go b/document.go
index 8b340e0..e0e84a9 100644
--- a/document.go
+++ b/document.go
@@ -29,6 +29,10 @@ type (
 		// Maps resolved $id URIs to the real document + JSON pointer path
 		// where the sub-schema lives, avoiding document duplication.
 		idAliases map[string]idAlias
+
+		// Maps document IDs to the URI references inside of them are relative to
+		// (Given by the "$id" of the document if there is one)
+		baseURIs map[string]string
 	}
 
 	// idAlias maps a resolved $id URI back to the parent document and the
@@ -100,14 +104,12 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 		},
 		documentFetchers: documentFetchers,
 		idAliases:        make(map[string]idAlias),
+		baseURIs:         make(map[string]string),
 	}
 
 	// Collect $id aliases from the root document tree so that relative
 	// $ref values (e.g. $ref: "color") can be resolved without I/O.
-	baseURI := resolvedRootDocumentId
-	if rootDocument.Id != nil && isAbsoluteURI(*rootDocument.Id) {
-		baseURI = *rootDocument.Id
-	}
+	baseURI := resolver.addBaseURI(resolvedRootDocumentId, rootDocument)
 
 	// Merge into existing idAliases
 	for resolvedId, alias := range collectSubSchemaIds(baseURI, resolvedRootDocumentId, rootDocument) {
@@ -239,6 +241,7 @@ func (r *documentResolver) HandleDeferredReferenceResolution(ref string, metadat
 	if !hasPath || path == "" {
 		path = "#"
 	}
+	path = decodeReferencePath(path)
 
 	// If we have no document, it is a local or relative reference and can be handled as such
 	if !hasDocument || documentID == "" {
@@ -280,6 +283,7 @@ func (r *documentResolver) ResolvePath(metadata *parserMetadata, ref string) (*s
 	if !hasPath || path == "" {
 		path = "#"
 	}
+	path = decodeReferencePath(path)
 
 	// If we have no document, it is a local or relative reference and can be handled as such
 	if !hasDocument || documentID == "" {
@@ -328,10 +332,7 @@ func (r *documentResolver) addDocument(id string, node *schemaNode) {
 	r.parsedExternalDocuments[id] = false
 
 	// Collect $id aliases from the new document tree.
-	baseURI := id
-	if node.Id != nil && isAbsoluteURI(*node.Id) {
-		baseURI = *node.Id
-	}
+	baseURI := r.addBaseURI(id, node)
 	for resolvedId, alias := range collectSubSchemaIds(baseURI, id, node) {
 		if _, exists := r.idAliases[resolvedId]; !exists {
 			r.idAliases[resolvedId] = alias
@@ -339,6 +340,19 @@ func (r *documentResolver) addDocument(id string, node *schemaNode) {
 	}
 }
 
+// addBaseURI records the URI the references inside of a document are relative to
+func (r *documentResolver) addBaseURI(id string, node *schemaNode) string {
+	baseURI := id
+	if node.Id != nil {
+		if resolved := resolveRelativeURI(id, *node.Id); resolved != "" {
+			baseURI = resolved
+		}
+	}
+
+	r.baseURIs[id] = baseURI
+	return baseURI
+}
+
 // collectSubSchemaIds marshals a schema node to a generic map and recursively
 // walks the entire structure looking for "$id" entries. Each found $id is
 // resolved against its nearest ancestor base URI and recorded as an idAlias.
@@ -411,10 +425,13 @@ func resolveRelativeURI(base, rel string) string {
 	return baseURL.ResolveReference(relURL).String()
 }
 
-// isAbsoluteURI returns true when s looks like an absolute URI (has a scheme).
-func isAbsoluteURI(s string) bool {
-	u, err := url.Parse(s)
-	return err == nil && u.Scheme != ""
+// decodeReferencePath decodes the percent escapes of a URI fragment
+func decodeReferencePath(path string) string {
+	if decoded, err := url.PathUnescape(path); err == nil {
+		return decoded
+	}
+
+	return path
 }
 
 // Checks if there are more documents that need to be parsed
@@ -440,6 +457,7 @@ func (r *documentResolver) ParseNextDocument(metadata *parserMetadata) (string,
 	// refs resolved during parsing don't re-queue this document.
 	r.parsedExternalDocuments[nextDocumentId] = true
 
+	metadata.ReferenceHandler.CurrentPath = "#"
 	_, err = parseRoot(*documentNode, metadata)
 
 	if err != nil {
@@ -449,6 +467,31 @@ func (r *documentResolver) ParseNextDocument(metadata *parserMetadata) (string,
 	return nextDocumentId, nil
 }
 
+// Parses everything references point to that no other part of a schema has been parsed at the path of.
+// Returns whether anything was left to parse
+func (r *documentResolver) ParsePendingReferences(metadata *parserMetadata) bool {
+	pending := metadata.ReferenceHandler.TakePendingReferences()
+	for _, ref := range pending {
+		if _, exists := metadata.ReferenceHandler.Lookup(ref.Document, ref.Path); exists {
+			continue
+		}
+
+		// References to nothing are reported when they are generated from
+		node, err := resolveSubReferencePath(r.documents[ref.Document], ref.Path, "")
+		if err != nil {
+			continue
+		}
+
+		r.documentCurrentlyBeingParsedId = ref.Document
+		r.documentCurrentlyBeingResolvedId = ref.Document
+		metadata.ReferenceHandler.CurrentPath = ref.Path
+		// Errors are collected while parsing
+		_, _ = parseNode(*node, metadata)
+	}
+
+	return len(pending) > 0
+}
+
 // Resolves a document based on its reference
 func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 	matches := util.RegexMatchNamedCaptureGroups(documentRegex, ref)
@@ -479,18 +522,33 @@ func (r *documentResolver) resolveDocument(ref string) (*schemaNode, error) {
 // resolved $id URI → document + JSON pointer), falling back to I/O-based
 // fetchers only if no alias matches.
 func (r *documentResolver) resolveDocumentRef(documentID string, refPath string) (string, string, error) {
+	// References that already name a known document need no resolution
+	if _, loaded := r.documents[documentID]; loaded {
+		return documentID, refPath, nil
+	}
+
 	// Check $id alias table first — resolves bare-name refs like "color"
 	// to the real document + JSON pointer path with no I/O.
-	resolved := resolveRelativeURI(r.GetCurrentScope(), documentID)
-	if resolved != "" {
+	scope := r.GetCurrentScope()
+	for _, baseURI := range []string{r.baseURIs[scope], scope} {
+		resolved := resolveRelativeURI(baseURI, documentID)
+		if resolved == "" {
+			continue
+		}
+
 		if alias, exists := r.idAliases[resolved]; exists {
 			return alias.documentId, composeJsonPointerPaths(alias.path, refPath), nil
 		}
+
+		// References of a document to itself
+		if resolved == r.baseURIs[scope] {
+			return scope, refPath, nil
+		}
 	}
 
 	// No alias found — fall back to I/O-based fetchers.
 	if r.HasNoFetchers() {
-		return r.GetCurrentScope(), refPath, nil
+		return "", "", fmt.Errorf("document '%s' is not known and fetching documents is not enabled", documentID)
 	}
 
 	fetcher, err := r.getFetcherForRef(documentID)
diff --git a/parse.go b/parse.go
index d40e9e5..b9bba96 100644
--- a/parse.go
+++ b/parse.go
@@ -274,11 +274,15 @@ func ParseSchema(schema []byte, opts *ParserOptions) (RootGenerator, error) {
 
 	generator, err := parseRoot(node, metadata)
 
-	for metadata.DocumentResolver.HasMoreDocumentsToParse() {
-		_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
-		if err != nil {
-			metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
+	for moreToParse := true; moreToParse; {
+		for metadata.DocumentResolver.HasMoreDocumentsToParse() {
+			_, err := metadata.DocumentResolver.ParseNextDocument(metadata)
+			if err != nil {
+				metadata.Errors.AddErrorWithSubpath("document_parse_error", err)
+			}
 		}
+
+		moreToParse = metadata.DocumentResolver.ParsePendingReferences(metadata)
 	}
 
 	return generator, err
diff --git a/reference.go b/reference.go
index b9cd8bb..ebd3215 100644
--- a/reference.go
+++ b/reference.go
@@ -38,6 +38,8 @@ func parseReference(node schemaNode, metadata *parserMetadata) (Generator, error
 		return nil, fmt.Errorf("failed to handle deferred reference resolution for ref '%s': %w", *node.Ref, err)
 	}
 
+	metadata.ReferenceHandler.AddPendingReference(documentId, ref)
+
 	return referenceGenerator{
 		Document:         documentId,
 		ReferenceStr:     ref,
diff --git a/reference_hander.go b/reference_hander.go
index 8e35f80..12da37f 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -23,6 +23,9 @@ type (
 		CurrentPath      string
 		References       map[string]map[string]reference
 		Errors           map[string]map[string]error
+
+		// References that have been parsed so far
+		pendingReferences []reference
 	}
 
 	// This struct used to track a stack of resolved references
@@ -100,6 +103,18 @@ func (h *referenceHandler) AddIdReference(path string, node schemaNode, generato
 	}
 }
 
+// AddPendingReference notes that something refers to the given path of a document
+func (h *referenceHandler) AddPendingReference(documentId string, path string) {
+	h.pendingReferences = append(h.pendingReferences, reference{Document: documentId, Path: path})
+}
+
+// TakePendingReferences returns the references noted since the last call
+func (h *referenceHandler) TakePendingReferences() []reference {
+	pending := h.pendingReferences
+	h.pendingReferences = nil
+	return pending
+}
+
 func (h *referenceHandler) HandleError(err error, metadata *parserMetadata) {
 	documentId := h.documentResolver.GetDocumentIdCurrentlyBeingParsed()
 	h.Errors[h.CurrentPath][documentId] = err
-- 
2.43.0


From d79d2dd7d3363a30224fb9073b0b12e34a8b4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 20/43] fix: circular negations terminate and exceeding the
 parse depth is always reported

---
 not.go   | 5 +++--
 parse.go | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index 5d49e7d..3d5a0c6 100644
--- a/not.go
+++ b/not.go
@@ -72,8 +72,9 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	if len(notNodes) == 0 {
-		// No single-not nodes remain — parse normally
-		return parseSchemaNode(node, metadata)
+		// No single-not nodes remain — parse normally (Constraints are applied by the node being parsed already)
+		node.constraints = nil
+		return parseNode(node, metadata)
 	}
 
 	// Flatten the existing structure
diff --git a/parse.go b/parse.go
index b9bba96..fa58f04 100644
--- a/parse.go
+++ b/parse.go
@@ -303,7 +303,9 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	maxDepth := metadata.ParserOptions.MaxParseDepth
 	if metadata.ParseDepth > maxDepth {
-		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		err := fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		metadata.Errors.AddError(err)
+		return nullGenerator{}, err
 	}
 
 	refHandler := metadata.ReferenceHandler
-- 
2.43.0


From 40c1c1c963f42dd561a3eb46add776f23774dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 21/43] fix: undeclared properties conform to the pattern
 properties they match

---
 object.go | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/object.go b/object.go
index 06908b1..ed2dc3f 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,8 @@ package chaff
 
 import (
 	"fmt"
+	"regexp"
+	"sort"
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
@@ -73,10 +75,11 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
 
-	// A closed object without pattern properties can not hold undeclared required properties
-	if additionalProperties.IsFalse && node.PatternProperties == nil {
+	// A closed object can not hold required properties that are neither declared nor match a pattern
+	if additionalProperties.IsFalse {
+		patterns := funk.Keys(util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})).([]string)
 		for _, key := range requiredProperties {
-			if _, ok := properties[key]; !ok {
+			if _, ok := properties[key]; !ok && matchPatternProperty(patterns, key) == "" {
 				return nullGenerator{}, fmt.Errorf("required property %q is not declared and additional properties are not allowed", key)
 			}
 		}
@@ -182,9 +185,9 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		if property, ok := g.Properties[key]; ok {
 			// Generate the required property
 			generatedValues[key] = property.Generate(opts)
-		} else if g.AdditionalProperties != nil {
-			// Undeclared properties have to conform to additionalProperties
-			generatedValues[key] = g.AdditionalProperties.Generate(opts)
+		} else if generator := g.undeclaredGenerator(key); generator != nil {
+			// Undeclared properties have to conform to patternProperties or additionalProperties
+			generatedValues[key] = generator.Generate(opts)
 		} else {
 			// If the property is not defined, generate a placeholder value
 			generatedValues[key] = fmt.Sprintf("required_%s_%d", key, opts.Rand.RandomInt(0, 9999999))
@@ -262,13 +265,14 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// results in fewer than the minimum number of properties being generated
 	// generate atleast the minimum number of properties required for satisfiability
 	if len(generatedValues) < min && !g.DisallowAdditionalProperties {
-		generator := g.FallbackGenerator
-		if g.AdditionalProperties != nil {
-			generator = g.AdditionalProperties
-		}
-
 		for i := len(generatedValues); i < min; i++ {
-			generatedValues[g.freeKey("min_filler", i, generatedValues)] = generator.Generate(opts)
+			key := g.freeKey("min_filler", i, generatedValues)
+			generator := g.undeclaredGenerator(key)
+			if generator == nil {
+				generator = g.FallbackGenerator
+			}
+
+			generatedValues[key] = generator.Generate(opts)
 		}
 
 	}
@@ -294,6 +298,27 @@ func (g objectGenerator) freeKey(prefix string, index int, generatedValues map[s
 	}
 }
 
+// Finds the generator an undeclared property has to conform to if there is any
+func (g objectGenerator) undeclaredGenerator(key string) Generator {
+	if regex := matchPatternProperty(funk.Keys(g.PatternProperties).([]string), key); regex != "" {
+		return g.PatternProperties[regex]
+	}
+
+	return g.AdditionalProperties
+}
+
+// Finds the first (in order) of a list of pattern properties that matches a key, returning "" if there is none
+func matchPatternProperty(regexes []string, key string) string {
+	sort.Strings(regexes)
+	for _, regex := range regexes {
+		if matches, err := regexp.MatchString(regex, key); err == nil && matches {
+			return regex
+		}
+	}
+
+	return ""
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From 3e4d88f85da2f715035062eee6cebad0123b0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 22/43] fix: parsing a file leaves the options of the caller
 alone

---
 parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index fa58f04..fc083e0 100644
--- a/parse.go
+++ b/parse.go
@@ -215,11 +215,13 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	}
 
 	// Resolve relative path base for fetching external documents unless already set
-	if opts.RelativeTo == "" {
-		opts.RelativeTo = "file://" + path
+	// (On a copy given that the passed options belong to the caller)
+	fileOpts := *opts
+	if fileOpts.RelativeTo == "" {
+		fileOpts.RelativeTo = "file://" + path
 	}
 
-	return ParseSchema(data, opts)
+	return ParseSchema(data, &fileOpts)
 }
 
 // Parses a Json Schema file at the given path with default options. If there is an error reading the file or
-- 
2.43.0


From 3e94260e23a10dab20999be4b79ea4feda154ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 23/43] fix: files outside of the allowed paths are rejected
 and the ones below them are accepted

The check was inverted: a single allowed path that did not match let any file
pass, while the files right below it were rejected. File names containing two
dots and working directories reached through a symbolic link were mistaken for
paths outside of the working directory.
---
 fetchers.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 2d47ae3..1ba84d1 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -197,23 +197,27 @@ func (f *fileSystemDocumentFetcher) fetchDocument(resolvedPath string) (*schemaN
 }
 
 func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
-	cwd, err := os.Getwd()
+	cwd, err := getRealPath(".")
 	if err != nil {
 		return false, fmt.Errorf("failed to get current working directory: %w", err)
 	}
 
-	diff, err := filepath.Rel(cwd, path)
-	return strings.Contains(diff, ".."), err
+	return isOutsideOf(cwd, path)
 }
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
+	// Without any allowed paths access is only limited by the current working directory
+	if len(allowedPaths) == 0 {
+		return false, nil
+	}
+
 	for _, allowedPath := range allowedPaths {
-		matched, err := filepath.Match(filepath.Join(allowedPath, "*"), path)
+		outside, err := isOutsideOf(allowedPath, path)
 		if err != nil {
 			return false, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
 		}
 
-		if !matched {
+		if !outside {
 			return false, nil
 		}
 	}
@@ -221,6 +225,16 @@ func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	return true, nil
 }
 
+// Checks if the path is neither the given base path nor anything below it
+func isOutsideOf(basePath string, path string) (bool, error) {
+	diff, err := filepath.Rel(basePath, path)
+	if err != nil {
+		return true, err
+	}
+
+	return diff == ".." || strings.HasPrefix(diff, ".."+string(filepath.Separator)), nil
+}
+
 func getRealPath(path string) (string, error) {
 	realPath, err := filepath.Abs(path)
 	if err != nil {
-- 
2.43.0


From da08a77d45746c6e5d07c42d3cefa4709873599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 24/43] fix: redirects only lead to allowed hosts and allowed
 hosts may be given as URLs

A redirect of an allowed host could lead to any host or back to http. Allowed
hosts given as URLs were never reduced to their host, so that they never matched.
---
 fetchers.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 1ba84d1..ff81256 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -31,6 +31,9 @@ type (
 	}
 )
 
+// Maximum number of redirects followed for a single document
+const maxRedirects = 10
+
 func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInterface, error) {
 	allowedHosts := []string{}
 
@@ -41,7 +44,7 @@ func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInter
 	for _, host := range parserConfig.AllowedHosts {
 		parsedUrl, err := url.Parse(host)
 
-		if parsedUrl != nil && err != nil {
+		if err == nil && parsedUrl.Host != "" {
 			allowedHosts = append(allowedHosts, parsedUrl.Host)
 		} else {
 			allowedHosts = append(allowedHosts, host)
@@ -74,21 +77,39 @@ func (f *httpDocumentFetcher) resolveDocumentId(relativeTo string, ref string) (
 		resolvedUrl = baseUrl.ResolveReference(parsedUrl)
 	}
 
+	if err := f.checkUrl(resolvedUrl); err != nil {
+		return "", err
+	}
+
+	return resolvedUrl.String(), nil
+}
+
+func (f *httpDocumentFetcher) checkUrl(resolvedUrl *url.URL) error {
 	if !f.allowInsecure && resolvedUrl.Scheme != "https" {
-		return "", fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", parsedUrl.Scheme, ref)
+		return fmt.Errorf("insecure URL scheme '%s' not allowed for URL '%s'", resolvedUrl.Scheme, resolvedUrl)
 	}
 
 	if len(f.allowedHosts) > 0 {
 		if !funk.Contains(f.allowedHosts, resolvedUrl.Host) {
-			return "", fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
+			return fmt.Errorf("host '%s' not allowed to be fetched from allowed hosts %s", resolvedUrl.Host, strings.Join(f.allowedHosts, ", "))
 		}
 	}
 
-	return resolvedUrl.String(), nil
+	return nil
 }
 
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resp, err := http.Get(resolvedPath)
+	// Redirects may only lead to where documents can be fetched from directly
+	client := *http.DefaultClient
+	client.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if len(via) >= maxRedirects {
+			return fmt.Errorf("stopped after %d redirects", maxRedirects)
+		}
+
+		return f.checkUrl(req.URL)
+	}
+
+	resp, err := client.Get(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch URL '%s': %w", resolvedPath, err)
 	}
-- 
2.43.0


From 071df04f9f875f1c1508e0faf3e6cd657f30ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 25/43] fix: relative references inside of inlined documents
 use the fetcher of the document they are written in

---
 document.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index e0e84a9..0b87471 100644
--- a/document.go
+++ b/document.go
@@ -582,13 +582,13 @@ func (r *documentResolver) getFetcherForRef(documentId string) (documentFetcherI
 	}
 
 	if url.Scheme == "" {
-		url, err = url.Parse(r.documentCurrentlyBeingParsedId)
+		url, err = url.Parse(r.GetCurrentScope())
 		if err != nil {
-			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.documentCurrentlyBeingParsedId, err)
+			return nil, fmt.Errorf("failed to parse base document URL '%s': %w", r.GetCurrentScope(), err)
 		}
 
 		if url.Scheme == "" {
-			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.documentCurrentlyBeingParsedId)
+			return nil, fmt.Errorf("document ID '%s' has no scheme and cannot be resolved against it or it's document root '%s'", documentId, r.GetCurrentScope())
 		}
 
 	}
-- 
2.43.0


From 7b5714ac4d8f161a58928dee9727ce05e64aaa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 26/43] fix: a type without any name is reported

---
 json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json.go b/json.go
index a4ca342..639d2eb 100644
--- a/json.go
+++ b/json.go
@@ -2,6 +2,7 @@ package chaff
 
 import (
 	"encoding/json"
+	"errors"
 )
 
 type (
@@ -61,6 +62,10 @@ func (m *multipleType) UnmarshalJSON(data []byte) error {
 		return singleTypeError
 	}
 
+	if singleType == "" && len(multipleTypes) == 0 {
+		return errors.New("type must either be the name of a type or a list with at least one type")
+	}
+
 	m.MultipleTypes = multipleTypes
 	m.SingleType = singleType
 
-- 
2.43.0


From eca7cf242c52804bc7ce6acd2a69df7ba18ff0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 27/43] fix: references merged into other schemas count as
 being expanded

---
 merge.go            | 22 +++++++++++++++++++++-
 not.go              |  1 +
 parse.go            | 11 +++++++++++
 reference_hander.go | 19 +++++++++++++++++++
 4 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 16b5376..861d599 100644
--- a/merge.go
+++ b/merge.go
@@ -18,6 +18,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 	for _, node := range nodes {
 		node, resolvedReference := mergeResolveNodeRef(metadata, node)
+		if resolvedReference {
+			resolutions := metadata.ReferenceResolver.GetResolutions()
+			mergedNode.inlinedReferences = mergeInlinedReferences(mergedNode.inlinedReferences, resolutions[len(resolutions)-1:])
+		}
 
 		// If the resolved node contains allOf, flatten it by recursively
 		// merging the allOf sub-schemas into the node. This prevents allOf
@@ -37,6 +41,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 			}
 		}
 
+		mergedNode.inlinedReferences = mergeInlinedReferences(mergedNode.inlinedReferences, node.inlinedReferences)
+
+		popMerging := metadata.MergingReferences.PushAll(mergedNode.inlinedReferences)
+
 		// Merge Type
 		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
 
@@ -84,6 +92,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 			mergedNode.Ref = node.Ref
 		}
 
+		popMerging()
 		if resolvedReference {
 			// Pop the reference resolution and set the document being resolved back to the previous one
 			metadata.ReferenceResolver.PopRefResolution()
@@ -113,7 +122,9 @@ func mergeResolveNodeRef(metadata *parserMetadata, node schemaNode) (schemaNode,
 		// parseReference → referenceGenerator, which handles cycles at
 		// generation time with depth limits. Without this the node would
 		// be empty and get parsed as "any type".
-		if metadata.ReferenceResolver.HasResolved(documentId, path) {
+		// (While nodes are being merged one expansion on top of another is no circle yet)
+		if metadata.ReferenceResolver.HasResolved(documentId, path) || metadata.InlinedReferences.HasResolved(documentId, path) ||
+			metadata.MergingReferences.CountResolutions(documentId, path) > 1 {
 			return node, false
 		}
 
@@ -134,6 +145,15 @@ func mergeResolveNodeRef(metadata *parserMetadata, node schemaNode) (schemaNode,
 	return node, false
 }
 
+// mergeInlinedReferences combines the references that have been merged into two nodes
+func mergeInlinedReferences(left []string, right []string) []string {
+	if len(right) == 0 {
+		return left
+	}
+
+	return funk.UniqString(append(append([]string{}, left...), right...))
+}
+
 // collectEnumValues returns the effective set of allowed values for a node.
 // A const is treated as a single-value enum; if both const and enum are
 // present they are intersected. Returns nil when the node has neither const
diff --git a/not.go b/not.go
index 3d5a0c6..5d408f2 100644
--- a/not.go
+++ b/not.go
@@ -200,6 +200,7 @@ func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (sc
 	// Preserve internal/combination fields from the source node that
 	// notMergeFunctions don't handle, so they survive through to parsing.
 	newNode.mergedIf = node.mergedIf
+	newNode.inlinedReferences = mergeInlinedReferences(node.inlinedReferences, notNode.inlinedReferences)
 	// Preserve Not from the source node so sub-properties retain their own
 	// not constraints for later parsing. Also preserve already-collected mergedNot.
 	if node.Not != nil || len(node.mergedNot) > 0 {
diff --git a/parse.go b/parse.go
index fc083e0..856f675 100644
--- a/parse.go
+++ b/parse.go
@@ -80,6 +80,12 @@ type (
 		ReferenceResolver referenceResolver
 		RootNode          schemaNode
 
+		// References that have been merged into the nodes currently being parsed
+		InlinedReferences referenceResolver
+
+		// References that have been merged into the nodes currently being merged with others
+		MergingReferences referenceResolver
+
 		// Number of conflicts found while merging nodes so far
 		MergeConflicts int
 
@@ -174,6 +180,9 @@ type (
 		// (not(A) AND not(B) is NOT the same as not(merge(A, B))).
 		mergedNot []*schemaNode
 
+		// References that have been replaced by what they refer to while merging this node
+		inlinedReferences []string
+
 		// Internal map used to keep track of constraints that need to be applied to this node during parsing
 		constraints *constraintCollection
 	}
@@ -310,6 +319,8 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
+	defer metadata.InlinedReferences.PushAll(node.inlinedReferences)()
+
 	refHandler := metadata.ReferenceHandler
 
 	gen, err := parseSchemaNode(node, metadata)
diff --git a/reference_hander.go b/reference_hander.go
index 12da37f..ec8fd78 100644
--- a/reference_hander.go
+++ b/reference_hander.go
@@ -133,6 +133,25 @@ func (r *referenceResolver) PopRefResolution() {
 	r.resolutions = r.resolutions[:len(r.resolutions)-1]
 }
 
+// CountResolutions returns how often the reference is being resolved
+func (r *referenceResolver) CountResolutions(document string, reference string) int {
+	count := 0
+	for _, resolution := range r.resolutions {
+		if resolution == fmt.Sprintf("%s|%s", document, reference) {
+			count++
+		}
+	}
+
+	return count
+}
+
+// PushAll adds the given resolutions and returns the function removing them again
+func (r *referenceResolver) PushAll(resolutions []string) func() {
+	count := len(r.resolutions)
+	r.resolutions = append(r.resolutions, resolutions...)
+	return func() { r.resolutions = r.resolutions[:count] }
+}
+
 // Returns the current resolution in the form "document", "referencePath"
 func (r *referenceResolver) GetCurrentResolution() (string, string) {
 	if len(r.resolutions) == 0 {
-- 
2.43.0


From eb48ca0914c822f9ca0d27e77776486d52a61f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 28/43] fix: formats count when values are matched against sub
 schemas

---
 schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema.go b/schema.go
index ad5f685..5c21d3d 100644
--- a/schema.go
+++ b/schema.go
@@ -35,6 +35,9 @@ func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaMan
 	// unless they are explicitly added to the schema manager by the upper level parser
 	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
 
+	// Formats are honoured when generating values, so values have to conform to them to match a sub schema
+	jsonSchemaCompiler.AssertFormat()
+
 	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), util.UnmarshalJsonStringToMap(string(schemaJson))); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bb637c85e2f2cb34c253e8b0e791605d9c95aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 29/43] fix: format validators reject signs, padded octets,
 labels starting with hyphens and text around addresses

---
 internal/jsonschema/formats.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index d457206..8ed6e98 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -92,6 +92,10 @@ func isTime(v any) bool {
 		return false
 	}
 	isInRange := func(str string, minVal, maxVal int) (int, bool) {
+		// digits only, without any sign
+		if str[0] < '0' || str[0] > '9' {
+			return 0, false
+		}
 		n, err := strconv.Atoi(str)
 		if err != nil {
 			return 0, false
@@ -283,7 +287,7 @@ func isHostname(v any) bool {
 		// labels must not start with a hyphen
 		// RFC 1123 section 2.1: restriction on the first character
 		// is relaxed to allow either a letter or a digit
-		if first := s[0]; first == '-' {
+		if first := label[0]; first == '-' {
 			return false
 		}
 
@@ -345,8 +349,9 @@ func isEmail(v any) bool {
 		return false
 	}
 
-	_, err := mail.ParseAddress(s)
-	return err == nil
+	// spaces and comments around the address are not part of it
+	address, err := mail.ParseAddress(s)
+	return err == nil && (address.Address == s || local[0] == '"')
 }
 
 // isIPV4 tells whether given string is a valid representation of an IPv4 address
@@ -368,8 +373,8 @@ func isIPV4(v any) bool {
 		if n < 0 || n > 255 {
 			return false
 		}
-		if n != 0 && group[0] == '0' {
-			return false // leading zeroes should be rejected, as they are treated as octals
+		if group[0] < '0' || group[0] > '9' || (len(group) > 1 && group[0] == '0') {
+			return false // signs and leading zeroes should be rejected, as the latter are treated as octals
 		}
 	}
 	return true
-- 
2.43.0


From cdda9403dd32f874d43040f3bd4fcc3ad51f42ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 30/43] fix: the list form of items is understood when values
 are matched against sub schemas

---
 schema.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5c21d3d..2c77329 100644
--- a/schema.go
+++ b/schema.go
@@ -55,7 +55,7 @@ func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node sc
 	sm.subSchemaCount++
 	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
-	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
+	referenceUpdatedNode := sm.replaceRefs(sm.replaceItemLists(deepClonedNode))
 
 	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
 		return nil, err
@@ -101,6 +101,41 @@ func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
 	}
 }
 
+// Recursively replaces the older list form of "items" with "prefixItems", given the
+// schema compiler only knows the newer form. What used to be "additionalItems" becomes "items"
+func (sm *schemaManager) replaceItemLists(data interface{}) interface{} {
+	switch v := data.(type) {
+	case map[string]interface{}:
+		for key, value := range v {
+			if key != "const" && key != "enum" {
+				v[key] = sm.replaceItemLists(value)
+			}
+		}
+
+		itemList, isList := v["items"].([]interface{})
+		if _, hasPrefixItems := v["prefixItems"]; !isList || hasPrefixItems {
+			return v
+		}
+
+		delete(v, "items")
+		if len(itemList) > 0 {
+			v["prefixItems"] = itemList
+		}
+
+		if additionalItems, ok := v["additionalItems"]; ok {
+			v["items"] = additionalItems
+		}
+		return v
+	case []interface{}:
+		for i, item := range v {
+			v[i] = sm.replaceItemLists(item)
+		}
+		return v
+	default:
+		return v
+	}
+}
+
 func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error) {
 	return sm.rootSchemaCompiler.Compile(sm.documentResolver.GetCurrentScope() + path)
 }
-- 
2.43.0


From 943681f0a88eb7d6ec0f224dcc0f8cb55526b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 31/43] fix: the command line tool applies the fetch flags to
 schemas from standard input

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index a59bc6c..c654ecb 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -74,7 +74,7 @@ func main() {
 		checkErr(err)
 	} else if hasStdin() {
 		stdin := readStdin()
-		generator, err = chaff.ParseSchemaWithDefaults(stdin)
+		generator, err = chaff.ParseSchema(stdin, parserOptions)
 		checkErr(err)
 	} else {
 		checkErr(fmt.Errorf("no schema specified! (On Stdin or through the --file flag)"))
-- 
2.43.0


From fde2f9407478b37cdadc09c57bca63dc31dbebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 32/43] fix: references inside of schemas that values are
 matched against resolve to what they designate and data is not taken for
 references

---
 document.go |  62 ++++++++----------------
 schema.go   | 137 ++++++++++++++++++++++++++++++----------------------
 walk.go     |  28 ++++++++++-
 3 files changed, 125 insertions(+), 102 deletions(-)

diff --git a/document.go b/document.go
index 0b87471..d0e842b 100644
--- a/document.go
+++ b/document.go
@@ -166,8 +166,7 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 		return schemaNode{}, fmt.Errorf("failed to unmarshal schema node to generic node for reference rewriting: %w", err)
 	}
 
-	genericNode, err = r.rewriteReferencesRelativeToDocumentInGenericNode(genericNode)
-	if err != nil {
+	if err = r.rewriteReferencesRelativeToDocumentInGenericNode(genericNode); err != nil {
 		return schemaNode{}, fmt.Errorf("failed to rewrite references relative to document '%s': %w", r.GetCurrentScope(), err)
 	}
 
@@ -184,50 +183,29 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 	return newNode, nil
 }
 
-func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) (genericNode, error) {
-	for key, value := range genericNode {
-		if key == "$ref" {
-			refStr, ok := value.(string)
-
-			// If the value under $ref is not a string, skip it
-			// for polymorphic schemas that may have non-string $ref values
-			// { "properties": {"$ref": {...}}
-			if !ok {
-				return genericNode, nil
-			}
-
-			documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
-			if err != nil {
-				return genericNode, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
-			}
-
-			// Rewrite the reference to be relative to the given document ID
-			genericNode["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) error {
+	var rewriteErr error
+
+	walkSchema(genericNode, "", func(node map[string]interface{}, _ string) {
+		// If the value under $ref is not a string, skip it
+		// for polymorphic schemas that may have non-string $ref values
+		// { "properties": {"$ref": {...}}
+		refStr, ok := node["$ref"].(string)
+		if !ok || rewriteErr != nil {
+			return
 		}
 
-		// Recursively traverse nested objects
-		switch v := value.(type) {
-		case map[string]interface{}:
-			rewrittenNode, err := r.rewriteReferencesRelativeToDocumentInGenericNode(v)
-			if err != nil {
-				return genericNode, err
-			}
-			genericNode[key] = rewrittenNode
-		case []interface{}:
-			for i, item := range v {
-				if itemMap, ok := item.(map[string]interface{}); ok {
-					rewrittenItem, err := r.rewriteReferencesRelativeToDocumentInGenericNode(itemMap)
-					if err != nil {
-						return genericNode, err
-					}
-					v[i] = rewrittenItem
-				}
-			}
-			genericNode[key] = v
+		documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
+		if err != nil {
+			rewriteErr = fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
+			return
 		}
-	}
 
-	return genericNode, nil
+		// Rewrite the reference to be relative to the given document ID
+		node["$ref"] = fmt.Sprintf("%s%s", documentId, path)
+	})
+
+	return rewriteErr
 }
 
 func (r *documentResolver) SetDocumentBeingResolved(documentId string) {
diff --git a/schema.go b/schema.go
index 2c77329..ce11744 100644
--- a/schema.go
+++ b/schema.go
@@ -20,6 +20,7 @@ type (
 	}
 
 	internalOnlyLoader struct {
+		schemaManager *schemaManager
 	}
 )
 
@@ -30,22 +31,24 @@ var pathSanitiseRegex = regexp.MustCompile(`[\/\#\-\.\,\s\.]`)
 // to ensure they conform to the original schema constraints
 func newSchemaManager(resolver *documentResolver, schemaJson []byte) (*schemaManager, error) {
 	jsonSchemaCompiler := jsonschema.NewCompiler()
+	sm := &schemaManager{
+		rootSchemaCompiler: jsonSchemaCompiler,
+		documentResolver:   resolver,
+	}
 
 	// To prevent external references from being inadvertently loaded or files from the local filesystem
-	// unless they are explicitly added to the schema manager by the upper level parser
-	jsonSchemaCompiler.UseLoader(internalOnlyLoader{})
+	// unless they are available to the upper level parser
+	jsonSchemaCompiler.UseLoader(internalOnlyLoader{schemaManager: sm})
 
 	// Formats are honoured when generating values, so values have to conform to them to match a sub schema
 	jsonSchemaCompiler.AssertFormat()
 
-	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), util.UnmarshalJsonStringToMap(string(schemaJson))); err != nil {
+	rootSchema := sm.prepareSchema(util.UnmarshalJsonStringToMap(string(schemaJson)))
+	if err := jsonSchemaCompiler.AddResource(resolver.GetCurrentScope(), rootSchema); err != nil {
 		return nil, err
 	}
 
-	return &schemaManager{
-		rootSchemaCompiler: jsonSchemaCompiler,
-		documentResolver:   resolver,
-	}, nil
+	return sm, nil
 }
 
 // Parses a schema node and creates a subdocument in the root schema compiler
@@ -55,7 +58,7 @@ func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node sc
 	sm.subSchemaCount++
 	currentPath := sm.normalisePath(fmt.Sprintf("%s/%s/%d", parserMetadata.ReferenceHandler.CurrentPath, field, sm.subSchemaCount))
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
-	referenceUpdatedNode := sm.replaceRefs(sm.replaceItemLists(deepClonedNode))
+	referenceUpdatedNode := sm.prepareSchema(deepClonedNode)
 
 	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
 		return nil, err
@@ -70,76 +73,94 @@ func (sm *schemaManager) normalisePath(path string) string {
 	return pathSanitiseRegex.ReplaceAllString(path, "_")
 }
 
-// Recursively replaces all $ref values in the schema with links back to the root schema
+// Rewrites a schema of the current document into what the schema compiler understands
+func (sm *schemaManager) prepareSchema(data interface{}) interface{} {
+	return sm.replaceRefs(sm.replaceItemLists(data))
+}
+
+// Replaces all $ref values in the schema with links to the documents they resolve to. Given that
+// nothing is relative to them any more the identifiers of schemas are dropped, as is the dialect
 func (sm *schemaManager) replaceRefs(data interface{}) interface{} {
-	switch v := data.(type) {
-	case map[string]interface{}:
-		if ref, ok := v["$ref"]; ok {
-			if refStr, ok := ref.(string); ok {
-				if strings.Contains(refStr, "://") {
-					// External cross-document refs (full URLs) can't be resolved
-					// by the internal-only compiler. Strip them so the sub-schema
-					// becomes permissive for that part. The go-chaff parser handles
-					// cross-document resolution separately at the parse level.
-					delete(v, "$ref")
-				} else {
-					v["$ref"] = sm.documentResolver.GetCurrentScope() + refStr
-				}
+	schema, ok := data.(map[string]interface{})
+	if !ok {
+		return data
+	}
+
+	walkSchema(schema, "", func(node map[string]interface{}, _ string) {
+		for _, keyword := range []string{"$id", "$schema"} {
+			if _, isString := node[keyword].(string); isString {
+				delete(node, keyword)
 			}
 		}
-		for key, value := range v {
-			v[key] = sm.replaceRefs(value)
+
+		refStr, ok := node["$ref"].(string)
+		if !ok {
+			return
 		}
-		return v
-	case []interface{}:
-		for i, item := range v {
-			v[i] = sm.replaceRefs(item)
+
+		documentId, path, err := sm.documentResolver.ResolveDocumentIdAndPath(refStr)
+		if err == nil {
+			node["$ref"] = documentId + path
+		} else if strings.Contains(refStr, "://") {
+			// External cross-document refs (full URLs) can't always be resolved.
+			// Strip them so the sub-schema becomes permissive for that part.
+			// The go-chaff parser reports them separately at the parse level.
+			delete(node, "$ref")
+		} else {
+			node["$ref"] = sm.documentResolver.GetCurrentScope() + refStr
 		}
-		return v
-	default:
-		return v
-	}
+	})
+
+	return schema
 }
 
-// Recursively replaces the older list form of "items" with "prefixItems", given the
-// schema compiler only knows the newer form. What used to be "additionalItems" becomes "items"
+// Replaces the older list form of "items" with "prefixItems", given the schema compiler
+// only knows the newer form. What used to be "additionalItems" becomes "items"
 func (sm *schemaManager) replaceItemLists(data interface{}) interface{} {
-	switch v := data.(type) {
-	case map[string]interface{}:
-		for key, value := range v {
-			if key != "const" && key != "enum" {
-				v[key] = sm.replaceItemLists(value)
-			}
-		}
+	schema, ok := data.(map[string]interface{})
+	if !ok {
+		return data
+	}
 
-		itemList, isList := v["items"].([]interface{})
-		if _, hasPrefixItems := v["prefixItems"]; !isList || hasPrefixItems {
-			return v
+	walkSchema(schema, "", func(node map[string]interface{}, _ string) {
+		itemList, isList := node["items"].([]interface{})
+		if _, hasPrefixItems := node["prefixItems"]; !isList || hasPrefixItems {
+			return
 		}
 
-		delete(v, "items")
+		delete(node, "items")
 		if len(itemList) > 0 {
-			v["prefixItems"] = itemList
+			node["prefixItems"] = itemList
 		}
 
-		if additionalItems, ok := v["additionalItems"]; ok {
-			v["items"] = additionalItems
-		}
-		return v
-	case []interface{}:
-		for i, item := range v {
-			v[i] = sm.replaceItemLists(item)
+		if additionalItems, ok := node["additionalItems"]; ok {
+			node["items"] = additionalItems
 		}
-		return v
-	default:
-		return v
-	}
+	})
+
+	return schema
 }
 
 func (sm *schemaManager) CompilePath(path string) (*jsonschemaV6.Schema, error) {
 	return sm.rootSchemaCompiler.Compile(sm.documentResolver.GetCurrentScope() + path)
 }
 
+// Loads the documents the parser has resolved (or is able to resolve) itself
 func (l internalOnlyLoader) Load(url string) (any, error) {
-	return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation", url)
+	resolver := l.schemaManager.documentResolver
+	document, isLoaded := resolver.documents[url]
+
+	if !isLoaded {
+		var err error
+		document, err = resolver.resolveDocument(url)
+		if err != nil {
+			return nil, fmt.Errorf("internal-only loader: external resource %q not available for schema validation: %w", url, err)
+		}
+	}
+
+	previousScope := resolver.GetCurrentScope()
+	defer resolver.SetDocumentBeingResolved(previousScope)
+	resolver.SetDocumentBeingResolved(url)
+
+	return l.schemaManager.prepareSchema(util.UnmarshalJsonStringToMap(util.MarshalJsonToString(document))), nil
 }
diff --git a/walk.go b/walk.go
index 541f4bf..51908a1 100644
--- a/walk.go
+++ b/walk.go
@@ -2,17 +2,41 @@ package chaff
 
 import "fmt"
 
+// Keywords holding values that are no schemas, whatever they look like
+var schemaDataKeywords = map[string]bool{
+	"const": true,
+	"enum":  true,
+}
+
+// Keywords holding schemas by name. The names are not to be mistaken for keywords
+var schemaNameKeywords = map[string]bool{
+	"properties":        true,
+	"patternProperties": true,
+	"$defs":             true,
+	"definitions":       true,
+	"dependentSchemas":  true,
+}
+
 // WalkSchema recursively visits every JSON object node in a schema tree.
 // The visitor is called for each node, parents before children.
 // path tracks the JSON pointer path (e.g. "/properties/name").
+// The values of "const" and "enum" are not part of the schema and left alone.
 func walkSchema(node map[string]interface{}, path string, visit func(node map[string]interface{}, path string)) {
+	walkSchemaObject(node, path, false, visit)
+}
+
+func walkSchemaObject(node map[string]interface{}, path string, holdsNames bool, visit func(node map[string]interface{}, path string)) {
 	visit(node, path)
 
 	for key, value := range node {
+		if !holdsNames && schemaDataKeywords[key] {
+			continue
+		}
+
 		childPath := path + "/" + escapeReferencePathToken(key)
 
 		if obj, ok := value.(map[string]interface{}); ok {
-			walkSchema(obj, childPath, visit)
+			walkSchemaObject(obj, childPath, !holdsNames && schemaNameKeywords[key], visit)
 			continue
 		}
 
@@ -26,7 +50,7 @@ func walkSchema(node map[string]interface{}, path string, visit func(node map[st
 			if !ok {
 				continue
 			}
-			walkSchema(obj, fmt.Sprintf("%s/%d", childPath, i), visit)
+			walkSchemaObject(obj, fmt.Sprintf("%s/%d", childPath, i), false, visit)
 		}
 	}
 }
-- 
2.43.0


From 5ca174069f5dd7498ba4444d0d12d768e7df9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 33/43] fix: declared and required properties satisfy every
 patternProperties pattern they match

---
 object.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/object.go b/object.go
index ed2dc3f..4042137 100644
--- a/object.go
+++ b/object.go
@@ -106,12 +106,13 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Generator {
 	properties := make(map[string]Generator)
-	if node.Properties == nil {
-		return properties
+	propertyNodes, err := combineWithPatternProperties(node, metadata)
+	if err != nil {
+		metadata.Errors.AddErrorWithSubpath("/properties", err)
 	}
 
 	ref := metadata.ReferenceHandler
-	for name, prop := range *node.Properties {
+	for name, prop := range propertyNodes {
 		refPath := fmt.Sprintf("/properties/%s", escapeReferencePathToken(name))
 		propGenerator, err := ref.ParseNodeInScope(refPath, prop, metadata)
 		if err != nil {
@@ -124,6 +125,60 @@ func parseProperties(node schemaNode, metadata *parserMetadata) map[string]Gener
 	return properties
 }
 
+// Finds the schemas of the declared properties, to which the schemas of all patterns they match apply too.
+// The same goes for required properties that are not declared but match several patterns
+func combineWithPatternProperties(node schemaNode, metadata *parserMetadata) (map[string]schemaNode, error) {
+	declared := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})
+	if node.PatternProperties == nil {
+		return declared, nil
+	}
+
+	combined := make(map[string]schemaNode)
+	for name, prop := range declared {
+		nodes := append([]schemaNode{prop}, matchingPatternSchemas(*node.PatternProperties, name)...)
+		if len(nodes) == 1 {
+			combined[name] = prop
+			continue
+		}
+
+		merged, err := mergeSchemaNodes(metadata, nodes...)
+		if err != nil {
+			return declared, err
+		}
+		combined[name] = merged
+	}
+
+	for _, name := range util.GetZeroIfNil(node.Required, []string{}) {
+		nodes := matchingPatternSchemas(*node.PatternProperties, name)
+		if _, isDeclared := declared[name]; isDeclared || len(nodes) < 2 {
+			continue
+		}
+
+		merged, err := mergeSchemaNodes(metadata, nodes...)
+		if err != nil {
+			return declared, err
+		}
+		combined[name] = merged
+	}
+
+	return combined, nil
+}
+
+// Finds the schemas of all pattern properties a property name matches (in the order of the patterns)
+func matchingPatternSchemas(patternProperties map[string]schemaNode, name string) []schemaNode {
+	regexes := funk.Keys(patternProperties).([]string)
+	sort.Strings(regexes)
+
+	schemas := []schemaNode{}
+	for _, regex := range regexes {
+		if matches, err := regexp.MatchString(regex, name); err == nil && matches {
+			schemas = append(schemas, patternProperties[regex])
+		}
+	}
+
+	return schemas
+}
+
 func parseAdditionalProperties(node schemaNode, metadata *parserMetadata) Generator {
 	if node.AdditionalProperties == nil || node.AdditionalProperties.IsFalse || node.AdditionalProperties.Schema == nil {
 		return nil
-- 
2.43.0


From 216faf1d6d6497939f1e1f8fab5306676b31e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 34/43] fix: patternProperties and additionalProperties of an
 allOf branch apply to the properties of the others

---
 merge.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/merge.go b/merge.go
index 861d599..caf2d36 100644
--- a/merge.go
+++ b/merge.go
@@ -51,6 +51,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
 		// Merge object properties
+		mergedNode, node = restrictProperties(metadata, mergedNode, node), restrictProperties(metadata, node, mergedNode)
 		mergedNode.Properties = mergeProperties(metadata, mergedNode.Properties, node.Properties)
 		mergedNode.AdditionalProperties = mergeNodeOrFalse(metadata, mergedNode.AdditionalProperties, node.AdditionalProperties, "additionalProperties")
 		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
@@ -238,6 +239,66 @@ func mergeProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode,
 	return &mergedProperties
 }
 
+// restrictProperties applies what another node demands of properties it does not declare (by its
+// patternProperties and additionalProperties) to the properties of a node. Properties that are
+// not allowed at all are left out.
+func restrictProperties(metadata *parserMetadata, node schemaNode, otherNode schemaNode) schemaNode {
+	if otherNode.AdditionalProperties == nil && otherNode.PatternProperties == nil {
+		return node
+	}
+
+	otherProperties := util.GetZeroIfNil(otherNode.Properties, map[string]schemaNode{})
+	otherPatterns := util.GetZeroIfNil(otherNode.PatternProperties, map[string]schemaNode{})
+	additional := util.GetZeroIfNil(otherNode.AdditionalProperties, schemaNodeOrFalse{})
+
+	restrict := func(field string, property schemaNode, restrictions []schemaNode) schemaNode {
+		if len(restrictions) == 0 {
+			return property
+		}
+
+		restricted, err := mergeSchemaNodes(metadata, append([]schemaNode{property}, restrictions...)...)
+		if err != nil {
+			warnConfigMergeError(metadata, field, err)
+			return property
+		}
+		return restricted
+	}
+
+	if node.Properties != nil {
+		properties := map[string]schemaNode{}
+		for key, property := range *node.Properties {
+			restrictions := matchingPatternSchemas(otherPatterns, key)
+
+			if _, declared := otherProperties[key]; !declared && len(restrictions) == 0 {
+				if additional.IsFalse {
+					continue
+				}
+
+				if additional.Schema != nil {
+					restrictions = []schemaNode{*additional.Schema}
+				}
+			}
+
+			properties[key] = restrict(fmt.Sprintf("properties/%s", key), property, restrictions)
+		}
+		node.Properties = &properties
+	}
+
+	if node.PatternProperties != nil && (additional.IsFalse || additional.Schema != nil) {
+		patternProperties := map[string]schemaNode{}
+		for regex, property := range *node.PatternProperties {
+			if _, shared := otherPatterns[regex]; shared {
+				patternProperties[regex] = property
+			} else if !additional.IsFalse {
+				patternProperties[regex] = restrict(fmt.Sprintf("patternProperties/%s", regex), property, []schemaNode{*additional.Schema})
+			}
+		}
+		node.PatternProperties = &patternProperties
+	}
+
+	return node
+}
+
 // mergePatternProperties merges two sets of pattern properties using the same
 // strategy as mergeProperties.
 func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]schemaNode, nodePtr *map[string]schemaNode) *map[string]schemaNode {
-- 
2.43.0


From 3910f806833db60ac3073c528f20bef52f9bbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 35/43] fix: positional items are intersected with the
 remaining items of the other allOf branches

---
 merge.go | 73 ++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/merge.go b/merge.go
index caf2d36..6b7ae60 100644
--- a/merge.go
+++ b/merge.go
@@ -57,6 +57,8 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.PatternProperties = mergePatternProperties(metadata, mergedNode.PatternProperties, node.PatternProperties)
 
 		// Merge array items
+		mergedNode, node = withPrefixItems(mergedNode), withPrefixItems(node)
+		mergedNode.PrefixItems, node.PrefixItems = restrictPrefixItems(metadata, mergedNode, node), restrictPrefixItems(metadata, node, mergedNode)
 		mergedNode.PrefixItems = mergePrefixItems(metadata, mergedNode.PrefixItems, node.PrefixItems)
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
@@ -324,6 +326,56 @@ func mergePatternProperties(metadata *parserMetadata, mergedPtr *map[string]sche
 	return &mergedPatternProperties
 }
 
+// withPrefixItems turns the legacy list form of "items" (with "additionalItems" for what follows
+// the list) into "prefixItems" and "items"
+func withPrefixItems(node schemaNode) schemaNode {
+	if node.Items == nil || node.Items.Nodes == nil {
+		return node
+	}
+
+	if node.PrefixItems == nil {
+		node.PrefixItems = node.Items.Nodes
+	}
+
+	node.Items = nil
+	if node.AdditionalItems != nil && (node.AdditionalItems.IsFalse || node.AdditionalItems.Schema != nil) {
+		node.Items = &itemsData{
+			DisallowAdditionalItems: node.AdditionalItems.IsFalse,
+			Node:                    node.AdditionalItems.Schema,
+		}
+	}
+	node.AdditionalItems = nil
+
+	return node
+}
+
+// restrictPrefixItems applies what another node demands of the items after its own
+// "prefixItems" to the "prefixItems" of a node. Items that are not allowed at all are left out.
+func restrictPrefixItems(metadata *parserMetadata, node schemaNode, otherNode schemaNode) *[]schemaNode {
+	otherLength := len(util.GetZeroIfNil(otherNode.PrefixItems, []schemaNode{}))
+	if node.PrefixItems == nil || len(*node.PrefixItems) <= otherLength || otherNode.Items == nil {
+		return node.PrefixItems
+	}
+
+	prefixItems := append([]schemaNode{}, (*node.PrefixItems)[:otherLength]...)
+	if otherNode.Items.DisallowAdditionalItems {
+		return &prefixItems
+	}
+
+	for i, item := range (*node.PrefixItems)[otherLength:] {
+		if otherNode.Items.Node != nil {
+			merged, err := mergeSchemaNodes(metadata, item, *otherNode.Items.Node)
+			if err != nil {
+				warnConfigMergeError(metadata, fmt.Sprintf("prefixItems/%d", otherLength+i), err)
+			}
+			item = merged
+		}
+		prefixItems = append(prefixItems, item)
+	}
+
+	return &prefixItems
+}
+
 // mergePrefixItems merges two prefix-item arrays by position. Where both sides
 // have an entry at the same index they are recursively merged; otherwise the
 // entry from whichever side has it is kept.
@@ -582,22 +634,19 @@ func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeD
 		}
 	}
 
-	if mergedData.Node != nil && nodeData.Node != nil {
-		node, err := mergeSchemaNodes(parserMetadata, *mergedData.Node, *nodeData.Node)
-		if err != nil {
-			warnConfigMergeError(parserMetadata, "items", err)
-			return mergedData
-		}
-
-		return &itemsData{Node: &node}
+	if mergedData.Node == nil {
+		return nodeData
+	} else if nodeData.Node == nil {
+		return mergedData
 	}
 
-	if mergedData.Nodes != nil && nodeData.Nodes != nil {
-		return &itemsData{Nodes: mergePrefixItems(parserMetadata, mergedData.Nodes, nodeData.Nodes)}
+	node, err := mergeSchemaNodes(parserMetadata, *mergedData.Node, *nodeData.Node)
+	if err != nil {
+		warnConfigMergeError(parserMetadata, "items", err)
+		return mergedData
 	}
 
-	warnConfigMergeError(parserMetadata, "items", fmt.Errorf("a list of items can not be merged with a single schema"))
-	return mergedData
+	return &itemsData{Node: &node}
 }
 
 func mergeNodeOrFalse(metadata *parserMetadata, mergedNode *schemaNodeOrFalse, node *schemaNodeOrFalse, field string) *schemaNodeOrFalse {
-- 
2.43.0


From b1f2720d1c0594c9d6ea17c7f8db3fb18833bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 36/43] fix: generated names that match several pattern
 properties conform to all of them

---
 object.go | 64 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/object.go b/object.go
index 4042137..f7b60bc 100644
--- a/object.go
+++ b/object.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/ryanolee/go-chaff/internal/regen"
 	"github.com/ryanolee/go-chaff/internal/util"
+	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
 	"github.com/thoas/go-funk"
 )
 
@@ -18,6 +19,9 @@ type (
 		PatternProperties      map[string]Generator
 		PatternPropertiesRegex map[string]regen.Generator
 
+		// Schemas of patterns a name might match next to the one it was generated from
+		PatternPropertiesSchemas map[string]*jsonschemaV6.Schema
+
 		DisallowAdditionalProperties bool
 		AdditionalProperties         Generator
 
@@ -29,7 +33,7 @@ type (
 	}
 )
 
-// Number of names tried to satisfy minProperties from pattern properties alone
+// Number of names or values tried to satisfy minProperties from pattern properties alone
 const maxPatternPropertyAttempts = 100
 
 // Parses the "type" keyword of a schema when it is an object
@@ -79,7 +83,8 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	if additionalProperties.IsFalse {
 		patterns := funk.Keys(util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})).([]string)
 		for _, key := range requiredProperties {
-			if _, ok := properties[key]; !ok && matchPatternProperty(patterns, key) == "" {
+			_, isDeclared := properties[key]
+			if _, matches := matchPatternProperty(patterns, key); !isDeclared && !matches {
 				return nullGenerator{}, fmt.Errorf("required property %q is not declared and additional properties are not allowed", key)
 			}
 		}
@@ -96,6 +101,8 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		PatternProperties:      patternProperties,
 		PatternPropertiesRegex: patternPropertiesRegex,
 
+		PatternPropertiesSchemas: parsePatternPropertiesSchemas(node, metadata),
+
 		DisallowAdditionalProperties: additionalProperties.IsFalse,
 		AdditionalProperties:         parseAdditionalProperties(node, metadata),
 		FallbackGenerator:            nullGenerator{},
@@ -226,6 +233,28 @@ func parsePatternProperties(node schemaNode, metadata *parserMetadata) (map[stri
 	return properties, propertiesRegex
 }
 
+// Compiles the schemas of pattern properties in case there are several a name could match
+func parsePatternPropertiesSchemas(node schemaNode, metadata *parserMetadata) map[string]*jsonschemaV6.Schema {
+	patternProperties := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})
+	if len(patternProperties) < 2 {
+		return nil
+	}
+
+	schemas := make(map[string]*jsonschemaV6.Schema)
+	for regex, property := range patternProperties {
+		refPath := fmt.Sprintf("/patternProperties/%s", escapeReferencePathToken(regex))
+		schema, err := metadata.SchemaManager.ParseSchemaNode(metadata, property, refPath)
+		if err != nil {
+			warnField(metadata, refPath, fmt.Errorf("failed to compile pattern property: %w", err))
+			continue
+		}
+
+		schemas[regex] = schema
+	}
+
+	return schemas
+}
+
 func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Handle complexity
 	opts.overallComplexity++
@@ -296,7 +325,8 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 			key, value := g.GeneratePatternProperty(opts)
 
 			// A name that happens to be taken or declared keeps its own value
-			if g.isFree(key, generatedValues) {
+			// and one that matches further patterns has to conform to them too
+			if g.isFree(key, generatedValues) && g.conformsToPatterns(key, value) {
 				generatedValues[key] = value
 			}
 		}
@@ -327,7 +357,12 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 				generator = g.FallbackGenerator
 			}
 
-			generatedValues[key] = generator.Generate(opts)
+			value := generator.Generate(opts)
+			for attempt := 1; attempt < maxPatternPropertyAttempts && !g.conformsToPatterns(key, value); attempt++ {
+				value = generator.Generate(opts)
+			}
+
+			generatedValues[key] = value
 		}
 
 	}
@@ -335,6 +370,17 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// Reports if a value conforms to the schemas of all pattern properties its name matches
+func (g objectGenerator) conformsToPatterns(key string, value interface{}) bool {
+	for regex, schema := range g.PatternPropertiesSchemas {
+		if matches, err := regexp.MatchString(regex, key); err == nil && matches && schema.Validate(value) != nil {
+			return false
+		}
+	}
+
+	return true
+}
+
 // Reports if a property name is neither declared by the schema nor generated already
 func (g objectGenerator) isFree(key string, generatedValues map[string]interface{}) bool {
 	_, declared := g.Properties[key]
@@ -355,23 +401,23 @@ func (g objectGenerator) freeKey(prefix string, index int, generatedValues map[s
 
 // Finds the generator an undeclared property has to conform to if there is any
 func (g objectGenerator) undeclaredGenerator(key string) Generator {
-	if regex := matchPatternProperty(funk.Keys(g.PatternProperties).([]string), key); regex != "" {
+	if regex, matches := matchPatternProperty(funk.Keys(g.PatternProperties).([]string), key); matches {
 		return g.PatternProperties[regex]
 	}
 
 	return g.AdditionalProperties
 }
 
-// Finds the first (in order) of a list of pattern properties that matches a key, returning "" if there is none
-func matchPatternProperty(regexes []string, key string) string {
+// Finds the first (in order) of a list of pattern properties that matches a key if there is any
+func matchPatternProperty(regexes []string, key string) (string, bool) {
 	sort.Strings(regexes)
 	for _, regex := range regexes {
 		if matches, err := regexp.MatchString(regex, key); err == nil && matches {
-			return regex
+			return regex, true
 		}
 	}
 
-	return ""
+	return "", false
 }
 
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
-- 
2.43.0


From 0846067cfd2441ff07ebcd4c7323f5f87898ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 37/43] fix: items matching contains conform to additionalItems
 and to nested contains as well

---
 array.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 07df459..f0217f3 100644
--- a/array.go
+++ b/array.go
@@ -202,7 +202,11 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 		if err != nil {
 			return nil, fmt.Errorf("error merging 'contains' with 'items' schema: %w", err)
 		}
-		mergedContains.Contains = nil
+	} else if node.Items != nil && node.Items.Nodes != nil && node.AdditionalItems != nil && node.AdditionalItems.Schema != nil {
+		mergedContains, err = mergeSchemaNodes(metadata, *node.AdditionalItems.Schema, *node.Contains)
+		if err != nil {
+			return nil, fmt.Errorf("error merging 'contains' with 'additionalItems' schema: %w", err)
+		}
 	}
 
 	return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata)
-- 
2.43.0


From d7f72b5fa1973b82297d46f38794cc4ea15767b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 38/43] fix: maxContains limits how many items match and a
 minContains of zero demands none

---
 array.go | 82 +++++++++++++++++++++++++++++++++++++++++++++++---------
 merge.go | 21 +++++++++++++++
 not.go   | 43 +++++++++++++++++++++++------
 3 files changed, 125 insertions(+), 21 deletions(-)

diff --git a/array.go b/array.go
index f0217f3..c677280 100644
--- a/array.go
+++ b/array.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/ryanolee/go-chaff/internal/util"
+	jsonschemaV6 "github.com/santhosh-tekuri/jsonschema/v6"
 	"github.com/thoas/go-funk"
 )
 
@@ -19,9 +20,13 @@ type (
 		UniqueItems bool
 
 		MinContains int
+		MaxContains *int
 		MinItems    int
 		MaxItems    *int
 
+		// Only available in case the number of items matching "contains" is limited
+		ContainsSchema *jsonschemaV6.Schema
+
 		DisallowAdditional bool
 		schemaNode         schemaNode
 	}
@@ -40,8 +45,8 @@ type (
 //	}
 func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	// Handle case where contains is set with no minContains (at least 1 must match subschema)
-	minContains := util.GetZeroIfNil(node.MinContains, 0)
-	maxContains := util.GetZeroIfNil(node.MaxContains, 0)
+	minContains := util.GetZeroIfNil(node.MinContains, 1)
+	maxContains := util.GetZeroIfNil(node.MaxContains, minContains)
 	minItems := util.GetZeroIfNil(node.MinItems, 0)
 	maxItems := util.GetZeroIfNil(node.MaxItems, minItems)
 	prefixItems := util.GetZeroIfNil(node.PrefixItems, []schemaNode{})
@@ -53,8 +58,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	if node.Contains == nil {
 		// minContains and maxContains have no meaning without contains
 		minContains, maxContains = 0, 0
-	} else if minContains == 0 {
-		minContains = 1
 	}
 
 	// Validate Bounds
@@ -62,8 +65,8 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("minItems must be less than or equal to maxItems and neither may be negative (minItems: %d, maxItems: %d)", minItems, maxItems)
 	}
 
-	if err := assertLowerUpperBound(minContains, maxContains, "minContains", "maxContains"); err != nil {
-		return nullGenerator{}, err
+	if minContains < 0 || maxContains < 0 || minContains > maxContains {
+		return nullGenerator{}, fmt.Errorf("minContains must be less than or equal to maxContains and neither may be negative (minContains: %d, maxContains: %d)", minContains, maxContains)
 	}
 
 	if requiredItems := len(prefixItems) + minContains; node.MaxItems != nil && node.Contains != nil && requiredItems > maxItems {
@@ -114,6 +117,13 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		}
 	}
 
+	var containsSchema *jsonschemaV6.Schema
+	if node.Contains != nil && node.MaxContains != nil {
+		if containsSchema, err = metadata.SchemaManager.ParseSchemaNode(metadata, *node.Contains, "contains"); err != nil {
+			return nullGenerator{}, fmt.Errorf("failed to compile contains: %w", err)
+		}
+	}
+
 	return arrayGenerator{
 		TupleGenerators: tupleGenerators,
 		ItemGenerator:   itemGenerator,
@@ -125,7 +135,9 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
+		MaxContains:       node.MaxContains,
 		ContainsGenerator: containsGenerator,
+		ContainsSchema:    containsSchema,
 
 		MinItems: util.GetInt(minItems, minContains),
 		MaxItems: node.MaxItems,
@@ -194,6 +206,11 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 		return nil, nil
 	}
 
+	if util.GetZeroIfNil(node.MinContains, 1) == 0 && evaluatesRemainingItems(node) {
+		// Nothing has to match and there are other items to choose from
+		return nil, nil
+	}
+
 	var err error = nil
 	mergedContains := *node.Contains
 	// Merge with items if possible to constrain the contains generator further to aling with item constraints
@@ -212,6 +229,15 @@ func parseContainsGeneratorInScope(node schemaNode, metadata *parserMetadata) (G
 	return metadata.ReferenceHandler.ParseNodeInScope("/contains", mergedContains, metadata)
 }
 
+// Reports if "items" or its older counterpart "additionalItems" apply to everything after the tuple
+func evaluatesRemainingItems(node schemaNode) bool {
+	if node.Items == nil {
+		return false
+	}
+
+	return node.Items.Nodes == nil || node.AdditionalItems != nil
+}
+
 func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	opts.overallComplexity++
 	if opts.ShouldCutoff() {
@@ -240,6 +266,9 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	} else if g.UniqueItems {
 		// Use higher entropy generator if unique items are required
 		itemGen = stringGenerator{}
+	} else if g.ContainsSchema != nil && g.ContainsSchema.Validate(nil) == nil {
+		// Items that do not match contains have to be found amongst the other types
+		itemGen = multipleTypeGenerator{generators: []Generator{booleanGenerator{}, stringGenerator{}, constGenerator{Value: 0}, objectGenerator{}, arrayGenerator{}}}
 	}
 
 	if g.DisallowAdditional {
@@ -257,7 +286,12 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Handle cases where no min items are handled
 	minContains := 0
 	if g.ContainsGenerator != nil {
-		minContains = util.GetInt(g.MinContains, 1)
+		minContains = g.MinContains
+	}
+
+	if g.ContainsSchema != nil {
+		// Tuple items that match already leave less to add
+		minContains = util.MaxInt(0, minContains-g.countContained(arrayData))
 	}
 
 	// Generate any required "contains" items
@@ -291,8 +325,8 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {
 		item, ok := g.generateConsideringUnique(opts, itemGen, arrayData)
 
-		if !ok && i > minItems {
-			// If we are unable to generate a unique item, and we have already satisfied the minimum
+		if !ok && len(arrayData) >= g.MinItems {
+			// If we are unable to generate a suitable item, and we have already satisfied the minimum
 			// bail out early
 			break
 		}
@@ -312,21 +346,43 @@ func (g arrayGenerator) String() string {
 	return fmt.Sprintf("ArrayGenerator{items: %s, tuple: [%s] }", g.ItemGenerator, tupleString)
 }
 
-// Will attempt to generate a unique item if the uniqueItems flag is set
+// Will attempt to generate an item that may follow the ones that are there already. That is
+// a unique item if the uniqueItems flag is set and one that does not match "contains" if enough items do
 func (g arrayGenerator) generateConsideringUnique(opts *GeneratorOptions, itemGenerator Generator, arrayData []interface{}) (interface{}, bool) {
-	if !g.UniqueItems {
+	containsExhausted := g.ContainsSchema != nil && g.countContained(arrayData) >= *g.MaxContains
+	if !g.UniqueItems && !containsExhausted {
 		return itemGenerator.Generate(opts), true
 	}
 
 	currentItems := funk.Map(arrayData, util.MarshalJsonToString).([]string)
 
-	// Generate until we have a unique item
+	// Generate until we have a suitable item
 	for i := 0; i < opts.MaximumUniqueGeneratorAttempts; i++ {
 		item := itemGenerator.Generate(opts)
-		if !funk.Contains(currentItems, util.MarshalJsonToString(item)) {
+		if containsExhausted && g.ContainsSchema.Validate(item) == nil {
+			continue
+		}
+
+		if !g.UniqueItems || !funk.Contains(currentItems, util.MarshalJsonToString(item)) {
 			return item, true
 		}
 	}
 
+	if containsExhausted {
+		return fmt.Sprintf("Warning: Unable to generate item within the maxContains limit of %d after %d attempts. Recheck passed schema.", *g.MaxContains, opts.MaximumUniqueGeneratorAttempts), false
+	}
+
 	return fmt.Sprintf("Warning: Unable to generate unique item after %d attempts. Recheck passed schema.", opts.MaximumUniqueGeneratorAttempts), false
 }
+
+// Counts how many items match "contains"
+func (g arrayGenerator) countContained(arrayData []interface{}) int {
+	count := 0
+	for _, item := range arrayData {
+		if g.ContainsSchema.Validate(item) == nil {
+			count++
+		}
+	}
+
+	return count
+}
diff --git a/merge.go b/merge.go
index 6b7ae60..cb68b83 100644
--- a/merge.go
+++ b/merge.go
@@ -63,6 +63,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.Items = mergeItemsData(metadata, mergedNode.Items, node.Items)
 		mergedNode.AdditionalItems = mergeNodeOrFalse(metadata, mergedNode.AdditionalItems, node.AdditionalItems, "additionalItems")
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
+		mergedNode, node = withContainsLimits(metadata, mergedNode, node), withContainsLimits(metadata, node, mergedNode)
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
 		// Merge combinators
@@ -462,6 +463,26 @@ func flattenResidualAllOf(metadata *parserMetadata, mergedNode schemaNode) (sche
 	return mergedNode, nil
 }
 
+// Makes explicit how many items a node wants to match its "contains". Limits
+// have no meaning for a node without it, so what another node contains is not subject to them
+func withContainsLimits(metadata *parserMetadata, node schemaNode, otherNode schemaNode) schemaNode {
+	if node.Contains == nil {
+		if otherNode.Contains != nil {
+			node.MinContains, node.MaxContains = nil, nil
+		}
+		return node
+	}
+
+	minContains := util.GetZeroIfNil(node.MinContains, 1)
+	node.MinContains = &minContains
+
+	if node.MaxContains != nil && otherNode.Contains != nil && util.MarshalJsonToString(node.Contains) != util.MarshalJsonToString(otherNode.Contains) {
+		warnConfigMergeError(metadata, "maxContains", fmt.Errorf("the number of items matching %s cannot be limited next to items matching %s", util.MarshalJsonToString(node.Contains), util.MarshalJsonToString(otherNode.Contains)))
+	}
+
+	return node
+}
+
 func mergeSchemaNodeSimpleProperties(metadata *parserMetadata, baseNode schemaNode, otherNode schemaNode) schemaNode {
 
 	warnIfBothSetAndAreDifferent(metadata, "length", otherNode.Length, baseNode.Length)
diff --git a/not.go b/not.go
index 5d408f2..2522b86 100644
--- a/not.go
+++ b/not.go
@@ -508,12 +508,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		notNode.MinItems, notNode.MaxItems,
 	)
 
-	newNode.MinContains, newNode.MaxContains = resolveBoundsInt(
-		metadata,
-		"minContains", "maxContains",
-		node.MinContains, node.MaxContains,
-		notNode.MinContains, notNode.MaxContains,
-	)
+	newNode.Contains, newNode.MinContains, newNode.MaxContains = notMergeContains(metadata, node, notNode)
 
 	if newNode.MinContains != nil && newNode.MaxItems != nil && *newNode.MinContains > *newNode.MaxItems {
 		warnField(metadata, "not/minContains", fmt.Errorf("while resolving not clauses minContains cannot be greater than maxItems"))
@@ -530,8 +525,6 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
-	newNode.Contains = notMergeSubNodePtr("/not/contains", metadata, node.Contains, notNode.Contains)
-
 	return nil
 }
 
@@ -705,6 +698,40 @@ func notMergeSubNodePtr(scope string, metadata *parserMetadata, nodePtr *schemaN
 	return &mergedNode
 }
 
+// Works out what an array contains given what it must not contain. Without anything that is
+// contained already the number of matches the not clause allows for is what has to be avoided
+func notMergeContains(metadata *parserMetadata, node schemaNode, notNode schemaNode) (*schemaNode, *int, *int) {
+	if notNode.Contains == nil {
+		minContains, maxContains := resolveBoundsInt(
+			metadata,
+			"minContains", "maxContains",
+			node.MinContains, node.MaxContains,
+			notNode.MinContains, notNode.MaxContains,
+		)
+		return node.Contains, minContains, maxContains
+	}
+
+	if node.MaxContains != nil {
+		// Ruling out matches would change what the limit applies to
+		return node.Contains, node.MinContains, node.MaxContains
+	}
+
+	// One kind of difference is enough, so matches may remain if the items are not what must be avoided anyway
+	if node.Contains != nil || notNode.Items != nil || notNode.PrefixItems != nil {
+		return notMergeSubNodePtr("/not/contains", metadata, node.Contains, notNode.Contains), node.MinContains, node.MaxContains
+	}
+
+	minContains, notMinContains := 0, util.GetZeroIfNil(notNode.MinContains, 1)
+	newMinContains, newMaxContains := resolveBoundsInt(
+		metadata,
+		"minContains", "maxContains",
+		&minContains, nil,
+		&notMinContains, notNode.MaxContains,
+	)
+
+	return notNode.Contains, newMinContains, newMaxContains
+}
+
 func notMergeItemData(metadata *parserMetadata, nodePtr *itemsData, notNodePtr *itemsData) *itemsData {
 	if nodePtr == nil && notNodePtr == nil {
 		return nil
-- 
2.43.0


From c213c17be1c039a240e7fb4bed56e9f900934a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 39/43] fix: unevaluatedItems of false rules out items that
 nothing else accounts for

---
 array.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index c677280..ac0a623 100644
--- a/array.go
+++ b/array.go
@@ -83,6 +83,16 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	disallowedAdditionalItems := node.Items != nil && (node.Items.DisallowAdditionalItems ||
 		(node.Items.Nodes != nil && node.AdditionalItems != nil && node.AdditionalItems.IsFalse))
 
+	// Items that neither the tuple nor "items" account for have to match "contains" if nothing else is allowed
+	disallowUnevaluatedItems := node.UnevaluatedItems != nil && node.UnevaluatedItems.IsFalse
+	if disallowUnevaluatedItems && !evaluatesRemainingItems(node) {
+		if node.Contains == nil {
+			disallowedAdditionalItems = true
+		} else if node.MaxContains != nil && minItems > tupleLength+maxContains {
+			return nullGenerator{}, fmt.Errorf("minItems cannot be satisfied as only items that match contains are allowed after the tuple (tupleLength: %d, minItems: %d, maxContains: %d)", tupleLength, minItems, maxContains)
+		}
+	}
+
 	// In the event that additional items are not allowed the tuple is all there can be
 	if disallowedAdditionalItems && util.MaxInt(minItems, tupleLength+minContains) > tupleLength {
 		return nullGenerator{}, fmt.Errorf("minItems and contains cannot be satisfied as nothing is allowed after the tuple (tupleLength: %d, minItems: %d, minContains: %d)", tupleLength, minItems, minContains)
@@ -109,8 +119,6 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, fmt.Errorf("error parsing tuple generator: %w", err)
 	}
 
-	disallowUnevaluatedItems := node.UnevaluatedItems != nil && node.UnevaluatedItems.IsFalse
-
 	if !disallowUnevaluatedItems && node.UnevaluatedItems != nil && node.UnevaluatedItems.Schema != nil {
 		if unevaluatedItemsGenerator, err = metadata.ReferenceHandler.ParseNodeInScope("/unevaluatedItems", *node.UnevaluatedItems.Schema, metadata); err != nil {
 			return nullGenerator{}, fmt.Errorf("error parsing unevaluated items generator: %w", err)
@@ -263,9 +271,12 @@ func (g arrayGenerator) Generate(opts *GeneratorOptions) interface{} {
 	} else if g.UnevaluatedItemsGenerator != nil {
 		// Fallback to unevaluated items if no other generator is set
 		itemGen = g.UnevaluatedItemsGenerator
-	} else if g.UniqueItems {
+	} else if g.UniqueItems && !g.DisallowUnevaluatedItems {
 		// Use higher entropy generator if unique items are required
 		itemGen = stringGenerator{}
+	} else if g.DisallowUnevaluatedItems && g.ContainsGenerator != nil {
+		// Only items that match contains are allowed
+		itemGen = g.ContainsGenerator
 	} else if g.ContainsSchema != nil && g.ContainsSchema.Validate(nil) == nil {
 		// Items that do not match contains have to be found amongst the other types
 		itemGen = multipleTypeGenerator{generators: []Generator{booleanGenerator{}, stringGenerator{}, constGenerator{Value: 0}, objectGenerator{}, arrayGenerator{}}}
-- 
2.43.0


From 12baf940fc086024a2fb25210f7eb282612821db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 40/43] fix: without any pattern a closed object has only its
 declared properties

---
 object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object.go b/object.go
index f7b60bc..00628eb 100644
--- a/object.go
+++ b/object.go
@@ -74,7 +74,7 @@ func parseObject(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	// Validate additionalProperties
 	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
-	if additionalProperties.IsFalse && node.PatternProperties == nil && minProperties > len(properties) {
+	if additionalProperties.IsFalse && len(util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})) == 0 && minProperties > len(properties) {
 		return nullGenerator{}, fmt.Errorf("given additional properties are not allowed and there are no pattern properties the minProperties must be less than or equal to the number of"+
 			"available properties. (minProperties: %d, propertiesDefined: %d)", node.MinProperties, len(properties))
 	}
-- 
2.43.0


From 5cd582c80e74e3e0b7ed216fda7aa1e1589680ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 41/43] fix: negated properties that are not declared conform
 to additionalProperties

---
 not.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/not.go b/not.go
index 2522b86..824b3c6 100644
--- a/not.go
+++ b/not.go
@@ -563,10 +563,15 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 			continue
 		}
 
+		property, isAllowed := propertySchema(node, propertyKey)
+		if !isAllowed {
+			continue
+		}
+
 		mergedProperties[propertyKey] = notMergeSubNode(
 			fmt.Sprintf("/not/properties/%s", propertyKey),
 			metadata,
-			util.GetObjectKeyOrDefault(node.Properties, propertyKey, schemaNode{}),
+			property,
 			util.GetObjectKeyOrDefault(notNode.Properties, propertyKey, schemaNode{}),
 		)
 	}
@@ -627,6 +632,22 @@ func notApplyObject(metadata *parserMetadata, newNode *schemaNode, constraintCol
 	return nil
 }
 
+// Finds the schema a property has to conform to once it is declared, which for an undeclared one that matches
+// no pattern is "additionalProperties". Reports false if an object can not have the property at all
+func propertySchema(node schemaNode, key string) (schemaNode, bool) {
+	if property, isDeclared := util.GetZeroIfNil(node.Properties, map[string]schemaNode{})[key]; isDeclared {
+		return property, true
+	}
+
+	patternProperties := util.GetZeroIfNil(node.PatternProperties, map[string]schemaNode{})
+	if len(matchingPatternSchemas(patternProperties, key)) > 0 {
+		return schemaNode{}, true
+	}
+
+	additionalProperties := util.GetZeroIfNil(node.AdditionalProperties, schemaNodeOrFalse{})
+	return util.GetZeroIfNil(additionalProperties.Schema, schemaNode{}), !additionalProperties.IsFalse
+}
+
 func applyUnsupportedNotFields(metadata *parserMetadata, newNode *schemaNode, constraintCollection *constraintCollection, node schemaNode, notNode schemaNode) error {
 	// Unsupported fields
 	warnUnsupportedField(metadata, "not/dependentRequired", func() bool {
-- 
2.43.0


From 0faea10ece2b4777c77c067604d1d48c6c189265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:26 +0000
Subject: [PATCH 42/43] fix: email texts with an address in brackets need a
 well-formed local part

---
 internal/jsonschema/formats.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/jsonschema/formats.go b/internal/jsonschema/formats.go
index 8ed6e98..11a545a 100644
--- a/internal/jsonschema/formats.go
+++ b/internal/jsonschema/formats.go
@@ -339,19 +339,22 @@ func isEmail(v any) bool {
 	if len(domain) >= 2 && domain[0] == '[' && domain[len(domain)-1] == ']' {
 		ip := domain[1 : len(domain)-1]
 		if strings.HasPrefix(ip, "IPv6:") {
-			return isIPV6(strings.TrimPrefix(ip, "IPv6:"))
+			return isIPV6(strings.TrimPrefix(ip, "IPv6:")) && isAddress(local, "localhost")
 		}
-		return isIPV4(ip)
+		return isIPV4(ip) && isAddress(local, "localhost")
 	}
 
 	// domain must match the requirements for a hostname
-	if !isHostname(domain) {
-		return false
-	}
+	return isHostname(domain) && isAddress(local, domain)
+}
+
+// isAddress tells whether an email address can be made up of the given parts
+func isAddress(local string, domain string) bool {
+	email := local + "@" + domain
 
 	// spaces and comments around the address are not part of it
-	address, err := mail.ParseAddress(s)
-	return err == nil && (address.Address == s || local[0] == '"')
+	address, err := mail.ParseAddress(email)
+	return err == nil && (address.Address == email || local[0] == '"')
 }
 
 // isIPV4 tells whether given string is a valid representation of an IPv4 address
-- 
2.43.0


From ed8e9e1399d404a15ea986bed98c93ab90563cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:03 +0000
Subject: [PATCH 43/43] fix: references next to a merged branch stay relative
 to their own document

---
 merge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index cb68b83..4105dc4 100644
--- a/merge.go
+++ b/merge.go
@@ -98,10 +98,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 
 		popMerging()
 		if resolvedReference {
-			// Pop the reference resolution and set the document being resolved back to the previous one
+			// Pop the reference resolution and set the document being resolved back to the one being parsed
+			// (Whatever was merged from other documents has absolute references by now)
 			metadata.ReferenceResolver.PopRefResolution()
-			document, _ := metadata.ReferenceResolver.GetCurrentResolution()
-			metadata.DocumentResolver.SetDocumentBeingResolved(document)
+			metadata.DocumentResolver.SetDocumentBeingResolved(metadata.DocumentResolver.GetDocumentIdCurrentlyBeingParsed())
 		}
 	}
 
-- 
2.43.0

