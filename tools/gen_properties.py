#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place to edit the property texts."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = [observe]
    P.append(d)

prop("P01", "Generated numbers respect minimum, maximum and the exclusive bounds",
 "For every number or integer schema that parses without error, every generated value lies within minimum and maximum, and strictly inside exclusiveMinimum and exclusiveMaximum, for any combination of those keywords being present or absent. Integer schemas only ever yield whole numbers. The generated value reaches both ends of an integer range.",
 ["inputs", "configurations"], "all values of the four bound keywords (present or absent) and all values the random source can return",
 "The failing inputs are rounding corners: a bound that is a half-integer, an exclusive bound one step from the other, a random draw at the very edge of [0,1). Sampled generation practically never draws them.",
 ["number.go", "parse.go", "rand/random.go"], [("bound resolution", "number.go resolveMinMaxForNode"), ("value generation", "number.go numberGenerator.Generate"), ("random range mapping", "rand/random.go RandomFloat, RandomInt")], "RootGenerator.Generate")
prop("P02", "Generated numbers are multiples of multipleOf and stay in range",
 "When a numeric schema carries multipleOf and parses without error, every generated value is a multiple of it and still lies within the schema's minimum and maximum.",
 ["inputs"], "all bounds and multipleOf values in the stated range, all random draws",
 "Which multiples are reachable depends on floor divisions of both bounds; off-by-one multiples appear only for particular alignments of bound and divisor, including negative ranges and ranges that start or end exactly on a multiple.",
 ["number.go", "internal/util/util.go"], [("counting and drawing multiples", "number.go countMultiplesInRange, generateMultipleOf"), ("snapping", "internal/util/util.go Round")], "RootGenerator.Generate")
prop("P03", "Numeric schemas are rejected exactly when no value can satisfy them",
 "A numeric schema is accepted without error when some number (or whole number, for integer) satisfies its bounds and multipleOf, and is reported as an error when none does, instead of generating an out-of-range value. A range holding exactly one value is accepted and generates that value.",
 ["inputs"], "all bound and multipleOf combinations in the stated range",
 "The boundary between satisfiable and unsatisfiable is a thin set of inputs (touching bounds, single-point ranges, a multiple sitting exactly on a bound) that a test table samples at a few points.",
 ["number.go"], [("validation of the range", "number.go resolveMinMaxForNode"), ("multiples in range", "number.go countMultiplesInRange")], "ParseSchema error result and generated value")
prop("P04", "Generated strings respect minLength and maxLength",
 "For every string schema that parses without error, the number of characters of every generated string lies between minLength and maxLength, including when one of them is zero or absent. Contradictory or negative lengths are reported as an error.",
 ["inputs"], "all minLength/maxLength values in range, all lengths of the random text fragments",
 "The text source returns fragments of random length; only particular fragment lengths relative to the two limits exercise the padding and truncation corner cases.",
 ["string.go"], [("length validation", "string.go parseString"), ("padding and truncation", "string.go stringGenerator.Generate")], "RootGenerator.Generate")
prop("P05", "Strings generated from a pattern match that pattern",
 "For every supported regular expression (anchors only at the two ends, no word boundaries, no Unicode property classes), every string generated for it (through pattern, or as the name of a pattern property) matches the expression, repeat counts included, and generation never panics.",
 ["inputs"], "all expressions of the listed shapes, all values the random source can return",
 "Edge characters of a class and edge repeat counts are drawn rarely, and off-by-one class arithmetic only shows at the last index of the last range.",
 ["internal/regen/internal_generator.go", "internal/regen/char_class.go", "internal/regen/regen.go", "regex.go"], [("character classes", "internal/regen/char_class.go"), ("repeats and alternation", "internal/regen/internal_generator.go")], "RootGenerator.Generate")
prop("P06", "Generated objects have all required keys and conforming property values",
 "Every object generated for a schema that parses cleanly contains every required key, and the value under each declared property satisfies that property's schema, whether the key is required or optional. A declared property whose name matches patternProperties patterns satisfies their schemas too, and so does a required name that is not declared.",
 ["inputs"], "all required/optional assignments of up to three properties, property counts and random choices",
 "It must hold for every subset of optional keys the generator can pick together with every count limit.",
 ["object.go"], [("required and optional keys", "object.go objectGenerator.Generate"), ("sub generators", "object.go parseProperties")], "RootGenerator.Generate")
prop("P07", "Objects respect minProperties, maxProperties and closed objects",
 "For every object schema that parses without error, the number of keys of each generated object lies between minProperties and maxProperties (zero and absent included). With additionalProperties false no key is generated that is neither a declared property nor matches a pattern property, and with an additionalProperties schema every extra value satisfies it. A key made up to reach minProperties, or required without being declared, conforms to the patternProperties pattern it matches, and a generated name that matches several patterns conforms to all of them (names made up to reach minProperties as far as a hundred attempts allow); a closed object that requires a key which is neither declared nor matched by a pattern is reported. Contradictory or negative counts are reported as an error. (A closed object whose pattern properties offer too few different names may stay below minProperties.)",
 ["inputs", "configurations"], "all counts up to the bound, all combinations of declared, required, additional and pattern properties, all random choices",
 "The key budget is split between required, optional, pattern, additional and filler keys; only specific splits under specific draws overshoot or undershoot.",
 ["object.go"], [("key budget", "object.go objectGenerator.Generate"), ("count validation", "object.go parseObject")], "RootGenerator.Generate")
prop("P08", "Arrays respect minItems, maxItems and their item schemas by position",
 "For every array schema that parses without error, the length of each generated array lies between minItems and maxItems, the leading elements satisfy prefixItems (or the older list form of items) position by position, and the remaining elements satisfy items. With items false nothing follows the prefix. Contradictory or negative counts are reported as an error, and so is a maxItems below the number of positional schemas.",
 ["inputs", "configurations"], "all lengths up to the bound, all combinations of the array keywords, all random draws",
 "Length arithmetic combines prefix, contains and random extra counts; off-by-one lengths appear only for particular combinations and draws.",
 ["array.go"], [("length arithmetic", "array.go arrayGenerator.Generate"), ("bounds validation", "array.go parseArray, assert.go")], "RootGenerator.Generate")
prop("P09", "Between minContains and maxContains elements match contains",
 "Every array generated for a schema with contains that parses without error holds at least minContains elements (one if absent, none needed if zero) satisfying the contains schema, next to whatever positional elements it has, and never more than maxContains of them, while all elements still satisfy items, additionalItems or a contains schema met at the same place. An element that cannot be found within the configured attempts holds the documented warning text instead. A minContains above maxContains is reported as an error.",
 ["inputs", "configurations"], "all minContains/maxContains/minItems/maxItems values up to the bound, all random draws",
 "Whether enough and not too many matching elements survive depends on the interplay of the counts, length limits, positional elements and random counts.",
 ["array.go", "merge.go"], [("contains items", "array.go arrayGenerator.Generate, parseContainsGeneratorInScope"), ("count limits", "array.go generateConsideringUnique, merge.go")], "RootGenerator.Generate")
prop("P10", "uniqueItems arrays have no duplicates unless marked as failed",
 "With uniqueItems true the elements of each generated array are pairwise different as JSON values; if the generator cannot find a new value within its attempt limit the slot holds the documented warning text instead, and the number of attempts never exceeds the configured limit.",
 ["inputs", "configurations"], "all element values, lengths and attempt limits up to the bound, all random draws",
 "Collisions only occur for particular sequences of random draws.",
 ["array.go"], [("uniqueness retry loop", "array.go generateConsideringUnique")], "RootGenerator.Generate")
prop("P11", "enum and const generate exactly the permitted values",
 "A schema with enum or const only ever generates one of the listed values that also satisfies the schema's other keywords; every such value can be generated, and a schema none of whose values qualifies is reported as an error. A const of null, false or zero is honoured like any other.",
 ["inputs"], "all enum lists up to three values with symbolic numbers next to other constraints, all draws",
 "Filtering against the sibling constraints only misbehaves when a listed value sits exactly on a limit.",
 ["enum.go", "const.go", "json.go", "schema.go"], [("filtering", "enum.go parseEnum"), ("const validation", "const.go parseConst"), ("null const", "json.go schemaNode.UnmarshalJSON")], "RootGenerator.Generate")
prop("P12", "oneOf results match exactly one branch or are marked as failed",
 "A value generated for a oneOf schema matches exactly one of its branches and the surrounding schema, unless the attempt limit ran out, in which case the documented failure text is returned; as long as the generation cutoff is not reached, a value matching zero or several branches is never returned as a success.",
 ["inputs", "schedules"], "all numeric branch limits in range, all sequences of random draws over a bounded number of attempts",
 "Overlapping branches are hit only for particular values, and the retry accounting only for particular sequences of failures.",
 ["combination.go"], [("exactly-one check", "combination.go oneOfConstraint.Apply"), ("branch merge", "combination.go parseCombination")], "RootGenerator.Generate")
prop("P13", "anyOf results satisfy at least one branch and the surrounding schema",
 "A value generated for a schema with anyOf, parsed without any recorded error, satisfies at least one of its branches and all keywords next to the anyOf, and every satisfiable branch can be chosen.",
 ["inputs"], "all numeric limits in branches and base, all draws",
 "Branches are merged with the base; whether the merged limits keep both sides depends on the relation between the numbers.",
 ["combination.go", "merge.go"], [("branch merge", "combination.go parseCombination, merge.go mergeSchemaNodes")], "RootGenerator.Generate")
prop("P14", "allOf results satisfy every branch",
 "A value generated for an allOf schema that parses without any recorded error satisfies every branch and the keywords next to it: types, numeric limits, lengths, item and property counts, required keys, property schemas, item schemas by position, enum and const are all intersected, and what one branch demands of properties it does not declare (patternProperties, additionalProperties) or of items after its positional ones holds for those the other branches declare. An empty intersection of numeric limits, lengths, types or listed values is reported as an error. (A $ref stands for its whole schema, so it counts only in a branch of its own.)",
 ["inputs", "configurations"], "all pairs of branches over the listed keywords with symbolic limits",
 "Merging is done keyword by keyword; taking the wrong side only shows when the looser limit comes in a particular order.",
 ["all_of.go", "merge.go", "internal/util/util.go"], [("keyword merge", "merge.go mergeSchemaNodes, mergeSchemaNodeSimpleProperties")], "RootGenerator.Generate")
prop("P15", "not excludes what it negates",
 "A value generated for a schema with not (or several nots gathered by allOf) does not match the negated schema, for negated types, numeric limits, lengths, item counts, formats, constants, enums and required keys, and it also satisfies the keywords next to the negation, as long as no error was recorded while parsing and unless the attempt limit ran out, in which case the documented failure text stands in; a double negation behaves like the schema itself.",
 ["inputs", "configurations"], "all base and negated limits in range for each keyword family, all draws",
 "Coercing limits away from the negated interval has five overlap cases with boundary points that tests sample only once each.",
 ["not.go", "constraint.go"], [("interval coercion", "not.go resolveBoundsInt, resolveBoundsFloat64"), ("post checks", "constraint.go multiConstraint.Apply")], "RootGenerator.Generate")
prop("P16", "if/then/else results are consistent with the condition",
 "A value generated for a schema with if satisfies then whenever it satisfies the condition, and satisfies else whenever it does not, together with the surrounding schema, unless the attempt limit ran out, in which case the documented failure text is returned. The same holds for several conditions gathered by allOf.",
 ["inputs", "schedules"], "all condition thresholds and branch limits in range, all sequences of random draws over a bounded number of attempts",
 "Each retry replaces the value; a branch result that flips the condition, or breaks an earlier condition, appears only for particular draws.",
 ["if.go"], [("condition loop", "if.go multipleIfConstraints.Apply, AttemptToSatisfyIfStatement")], "RootGenerator.Generate")
prop("P17", "A $ref means the schema its pointer designates",
 "Wherever a $ref with a local JSON pointer or an $id appears (directly, inside properties or items, inside allOf, anyOf, oneOf, not or if), generation behaves as if the designated schema were written there; a pointer that designates nothing is reported as an error or as the documented unresolvable text and never panics or silently resolves elsewhere. (Pointers that lead through allOf, whose branches are merged, are rejected by design, and so are pointers through empty names; references inside a sub-schema that has its own $id are not part of this.)",
 ["inputs", "programs"], "all pointer targets over the supported schema keywords incl. list indices in and out of range, at all positions",
 "The resolver has one case per keyword and an index check; wrong targets only show for particular pointer shapes.",
 ["reference_path.go", "reference.go", "reference_hander.go", "document.go"], [("pointer walk", "reference_path.go resolveSubReferencePath"), ("generation-time lookup", "reference.go referenceGenerator.Generate")], "RootGenerator.Generate")
prop("P18", "Recursive schemas terminate within the configured depth",
 "Generating from schemas with cyclic references always terminates; without the bypass option no reference is entered again while it is being expanded, and with it the number of nested reference expansions never exceeds the configured maximum depth by more than one, the documented marker text standing in for the cut-off part; expansions that have ended do not count for what follows them. Parsing circular compositions terminates, also where recursive references are merged again and again, and a schema nested deeper than the configured parse depth is reported as an error instead of being cut off silently.",
 ["inputs", "configurations", "schedules"], "all depth limits up to the bound, all recursive choices",
 "Depth accounting must be balanced on every path through nested properties, items and combinations.",
 ["reference.go", "reference_hander.go", "parse.go"], [("depth and cycle check", "reference.go referenceGenerator.Generate"), ("resolution stack", "reference_hander.go"), ("parse depth", "parse.go parseNode")], "RootGenerator.Generate, ParseSchema")
prop("P19", "Generation effort is bounded by the step limits",
 "The number of retry attempts granted is always between one and the configured number, the full number below the minimise threshold, never increases as the work done grows, and is one past the cutoff. Past the minimise threshold containers generate only what is required and past the cutoff containers and combinations stop generating; a limit of the caller's choosing replaces the default.",
 ["inputs", "configurations"], "all step counts, thresholds and attempt limits in range",
 "The scaled budget is a float division over three independent counters; degenerate windows and boundary counts are not sampled.",
 ["generator.go"], [("budget scaling", "generator.go ScaledRetryBudget"), ("thresholds", "generator.go ShouldCutoff, ShouldMinimize")], "RootGenerator.Generate, GeneratorOptions methods")
prop("P20", "Caller options are honoured, defaulted and never modified",
 "Every option the caller sets is used as given and every option left at zero takes its documented default. Neither parsing nor generating modifies the option values the caller passed in, and a generator can be used repeatedly, each call starting with a fresh budget. (The default minimum and maximum for numbers and default lengths for strings have no effect at present; this is recorded as a known finding.)",
 ["inputs", "histories"], "all option values, sequences of two calls",
 "Defaulting is one line per option; a swapped or dropped option stays within its default in every test.",
 ["generator.go", "parse.go"], [("generator defaults", "generator.go withGeneratorOptionsDefaults"), ("parser defaults", "parse.go withDefaultParseOptions, ParseSchemaFile")], "option values before and after a call")
prop("P21", "File references never escape the permitted directories",
 "With file access enabled, a file is only read for a reference if, after resolving symbolic links and parent segments, it lies below the working directory (unless access outside of it is allowed) and below one of the allowed paths when such paths are given; everything else is rejected with an error and not read.",
 ["inputs", "configurations"], "all resolved absolute paths up to the stated length, all allowed path lists up to two entries, both switches",
 "Containment is decided on path strings; sibling-prefix names, dot segments and list handling need adversarial strings.",
 ["fetchers.go", "document.go"], [("containment check", "fetchers.go resolveDocumentId, isOutsideOfCwd, isOutsideOfAllowedPaths")], "file reads performed while parsing")
prop("P22", "HTTP references only reach allowed hosts over allowed schemes",
 "With HTTP access enabled, a request is only made to a host in the allowed list when one is given, and only over https unless insecure access is allowed; relative references are resolved against the referring document before the check, and redirects do not lead elsewhere.",
 ["inputs", "configurations"], "all host, scheme and allow-list combinations, redirect targets chosen by the server",
 "The adversary picks the reference and the redirect; tests use one fixed local server.",
 ["fetchers.go", "document.go"], [("host and scheme check", "fetchers.go httpDocumentFetcher.resolveDocumentId"), ("request", "fetchers.go fetchDocument")], "requests issued while parsing")
prop("P23", "No file or network access unless enabled",
 "With fetching disabled (the default) parsing any schema text, whatever its $ref, $id or $schema values, performs no file read and no network request; enabling one kind of access never enables the other.",
 ["inputs", "configurations"], "all reference forms over the listed schemes at all keyword positions, all on/off combinations",
 "Absence of an effect must hold for every reference form and position.",
 ["document.go", "fetchers.go", "schema.go"], [("fetcher registration", "document.go newDocumentResolver"), ("internal-only loader", "schema.go internalOnlyLoader")], "file reads and requests performed while parsing")
prop("P24", "Generated values have one of the declared or implied types",
 "For a schema with type, or a list of types, every generated value has one of those types; without type, a schema whose keywords belong to one type generates that type and a schema without keywords may generate any. Every listed type can be generated, and a listed type whose other keywords are contradictory never yields a value of an unlisted type without an error being reported.",
 ["inputs", "configurations"], "all type lists up to three entries combined with typed keywords with symbolic limits, all draws",
 "Which listed type is drawn is random, and the fallback for an unparsable type is only visible for the combination of that draw and a contradictory keyword.",
 ["multiple_type.go", "parse.go", "json.go"], [("type list", "multiple_type.go parseMultipleType"), ("inference", "parse.go inferType")], "RootGenerator.Generate")
prop("P25", "Parsing and generating never panic",
 "Parsing any JSON document as a schema and generating from the result never panics, whatever combination of keywords, limits and references it contains, provided the options are not negative; malformed or contradictory schemas lead to an error. (Counts so large that only time or memory run out are outside.)",
 ["inputs", "programs"], "all schemas over the listed keyword grammar with symbolic numbers including zero, negative and contradictory ones",
 "Panics hide in combinations: a zero count reaching a random range, an index from a pointer, a nil sub-schema.",
 ["parse.go", "array.go", "object.go", "number.go", "reference_path.go", "not.go", "rand/random.go"], [("dispatch", "parse.go parseSchemaNode"), ("random ranges", "rand/random.go RandomInt")], "process outcome")
prop("P26", "Contradictory sub-schemas are always reported",
 "If any sub-schema (under properties, items, prefixItems, contains, additionalProperties, allOf, anyOf, oneOf, then, else, $defs or definitions of the root, or a type list) is contradictory on its own, parsing either returns an error or the collected errors are non-empty; the collected errors are empty for schemas without such problems. (A branch, condition or then/else that contradicts the schema around it may be recorded as well. References that do not resolve are the subject of another property.)",
 ["inputs", "programs"], "all positions of the sub-schema, all limit values",
 "Each position has its own error path, several of which discard the error locally and rely on another one recording it.",
 ["parse.go", "error.go", "object.go", "array.go", "combination.go", "multiple_type.go"], [("error collection", "error.go"), ("recording", "parse.go parseNode")], "ParseSchema error and Metadata.Errors")
prop("P27", "Strings with a known format conform to it",
 "For each supported format (date-time, time, date, duration, email, hostname, ipv4, ipv6, uuid, uri and their variants) every generated string is syntactically valid for that format; for formats that are not supported the documented marker text is produced.",
 ["inputs"], "all timestamps and draws in range for the time and duration formats; all format names",
 "Only particular instants or draws expose a malformed field.",
 ["string.go"], [("format table", "string.go generateFormat")], "RootGenerator.Generate")
prop("P28", "Random helpers stay in range for every draw",
 "The exported random helpers return values within the documented half-open integer and closed float ranges for every seed and every bound pair (equal bounds give the bound), never panic for valid ranges (minimum not above maximum), pick only elements of the given list, pick the requested number of distinct positions, and equal seeds give equal sequences.",
 ["inputs"], "all bound pairs in range and all raw draws",
 "Extreme draws and negative ranges are not sampled.",
 ["rand/random.go"], [("helpers", "rand/random.go")], "exported functions of package rand")
prop("P29", "The format validators used by not accept exactly well-formed values",
 "The built-in format validators used to exclude formats accept a string only if it is a well-formed date, time, duration, IPv4 or IPv6 address, UUID, hostname, email or JSON pointer, and never panic on any string. (A trailing dot of a hostname may go either way.)",
 ["inputs"], "all strings up to the stated length over the listed alphabets",
 "The validators index into the string by hand; short, truncated or boundary values are a large space.",
 ["internal/jsonschema/formats.go"], [("validators", "internal/jsonschema/formats.go")], "not/format behaviour and the validator table")
prop("P30", "Re-encoding a schema node keeps its meaning",
 "Reading a schema and writing it out again (as is done whenever a $ref is inlined or a sub-schema is validated) keeps every supported keyword with its value, including false sub-schemas, list-form items, single and multiple types, and a null const.",
 ["inputs", "programs"], "all single- and two-keyword schemas over the supported keywords with symbolic values, at nesting depth up to two",
 "A keyword lost in translation silently loosens the schema; each keyword and each form needs covering.",
 ["json.go", "parse.go", "document.go"], [("custom encoders", "json.go"), ("re-encoding", "document.go RewriteReferencesRelativeToDocument")], "generation behaviour of a $ref inside allOf compared with inlining")
prop("P31", "The command line tool maps flags faithfully and never overwrites",
 "The command line tool passes each flag to the option it names, grants file or network access only when a corresponding flag is set, applies the same parse options to a schema from standard input as to one from a file, prints the generated value as JSON (the verbose mode prints its diagnostics before it), and refuses to write over an existing output file.",
 ["configurations", "inputs"], "all flag combinations with symbolic values",
 "There are more flag combinations than anyone tests, and no test covers the tool at all.",
 ["cli/cli.go"], [("flag mapping", "cli/cli.go main"), ("output file", "cli/cli.go writeFile")], "options passed to the library and files written")
prop("P32", "unevaluatedItems governs the elements nothing else accounts for",
 "In every array generated for a schema that parses without error, each element that is covered neither by prefixItems (or the list form of items), nor by items or additionalItems, nor by contains - those of the allOf, anyOf, oneOf, if/then/else and $ref parts of the same schema included - satisfies unevaluatedItems. With unevaluatedItems false there is no such element, and a minItems that could only be reached with one is reported as an error. Left out: an unevaluatedItems that stands inside of a branch of allOf, anyOf or oneOf, and one next to not.",
 ["inputs", "configurations"], "all combinations of the array keywords with symbolic counts, all random draws",
 "Which elements count as accounted for depends on every other array keyword and every combination around it.",
 ["array.go"], [("unaccounted elements", "array.go parseArray, evaluatesRemainingItems, arrayGenerator.Generate")], "RootGenerator.Generate")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
