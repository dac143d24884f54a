#!/usr/bin/env python3
"""Writes known_findings.json: the genuine defects found, repaired or recorded."""
import json, os
F = [
 ("P01", "14fc4a6", "integer ranges holding a single value were rejected, exclusive bounds could be generated, and the highest multiple was never reached (also P02, P03)"),
 ("P04", "1385ed7", "maxLength 0 was ignored and minLength above maxLength was not reported"),
 ("P07", "43a1c27", "objects exceeded maxProperties, fell below minProperties, gained undeclared keys while closed and lost declared values (also P06)"),
 ("P08", "b764f27", "maxItems 0 was ignored, closed tuples grew, configured item limits were not honoured (also P09, P10)"),
 ("P28", "643f7b8", "StringChoice and Shuffle drew from the global source; choices were biased to the first element"),
 ("P30", "de6bae3", "list-form items and true sub-schemas were lost by decoding and re-encoding"),
 ("P14", "e6875a2", "merging allOf branches did not intersect types, lost item lists and chose wrong common multiples"),
 ("P16", "a61a645", "several if statements were satisfied one by one only"),
 ("P12", "0460e1f", "sub-schemas compiled for validation shared names, so that values were validated against another sub-schema (also P13, P15, P16)"),
 ("P24", "74cb5f0", "contradictory or unknown entries of a type list were dropped silently (also P26)"),
 ("P24", "7c29601", "keywords that imply array or object were not recognised; pattern property options were not used (also P20)"),
 ("P11", "05be2cc", "merging lost a const next to an enum"),
 ("P05", "be21748", "a dot inside a character class or after an escaped backslash was rewritten, a class holding the null byte was rejected"),
 ("P13", "bd29a27", "a combination branch that could not be satisfied produced null"),
 ("P14", "7c882df", "only one of several anyOf or oneOf keywords merged by allOf held"),
 ("P15", "bb2aa77", "values generated for a negation could match the negated schema"),
 ("P17", "cea15d1", "references could not be merged when no base location was given"),
 ("P17", "ad90162", "reference paths were matched ignoring escapes, so that references designated other schemas or none"),
 ("P17", "de13a5d", "references into schemas no generator had been built for, and references by root identifier, did not resolve; unknown documents were not reported"),
 ("P18", "d79d2dd", "circular negations overflowed the stack and exceeding the parse depth was not always reported"),
 ("P06", "40c1c1c", "values under required but undeclared names ignored the pattern properties they match (also P07)"),
 ("P20", "3e4d88f", "ParseSchemaFile changed the options of the caller, so that the next file was resolved against the one before"),
 ("P21", "3e94260", "the allowed-path check was inverted: a single path that did not match let every file pass"),
 ("P22", "da08a77", "redirects were followed to any host and back to http; allowed hosts given as URLs never matched"),
 ("P22", "071df04", "relative references inside of inlined documents were fetched by the scheme of another document"),
 ("P24", "7b5714a", "an empty type name and an empty list of types meant no type at all instead of being reported"),
 ("P18", "eca7cf2", "merging references again and again doubled the work at every level: recursive schemas with compositions never finished parsing"),
 ("P15", "eb48ca0", "a negated format was never satisfied, and formats did not count when values were matched for oneOf and if"),
 ("P30", "fde2f94", "references inside of inlined schemas and $id references were ignored or failed when values were matched against them; $ref inside of const and enum values was rewritten"),
 ("P26", "cdda940", "the list form of items inside of schemas that values are matched against (oneOf, if, not, enum, const) was reported as a problem of the schema"),
 ("P31", "943681f", "the command line tool ignored the fetch flags for schemas from standard input"),
 ("P06", "5ca1740", "a declared property that matches a patternProperties pattern ignored the pattern's schema (also P07)"),
 ("P14", "216faf1", "patternProperties and additionalProperties of one branch were not applied to the properties of the others"),
 ("P14", "3910f80", "items of one branch were not applied to the positional items of the others, and the older list form of items could not be merged"),
 ("P07", "b1f2720", "values of generated names that match several patternProperties only conformed to the pattern drawn, and the empty pattern was ignored for names made up"),
 ("P09", "0846067", "items that match contains did not conform to additionalItems nor to a contains around them"),
 ("P09", "d7f72b5", "maxContains was ignored and a minContains of zero still demanded an element (also P14, P15)"),
 ("P32", "c213c17", "unevaluatedItems of false still let elements in that nothing accounts for, next to contains for instance"),
 ("P29", "0faea10", "the email validator accepted any local part, an empty one included, before an address in brackets (@[1.2.3.4])"),
 ("P17", "ed8e9e1", "once a branch that refers to another document had been merged, references of the document itself were taken as relative to the other one (rejected, or resolved to a different file)"),
 ("P29", "bb637c8", "format validators accepted signed numbers, padded octets, labels starting with a hyphen and text around mail addresses"),
 ("P07", "12baf94", "a closed object with an empty patternProperties was accepted although minProperties could not be reached"),
 ("P15", "5cd582c", "negated properties that the surroundings do not declare ignored additionalProperties: values of the wrong type, and keys of closed objects, were generated"),
]
K = [
 ("P20-number-string-defaults", "P20", "DefaultNumberMinimum/DefaultNumberMaximum and DefaultStringMinLength/DefaultStringMaxLength are accepted but never used: unbounded numbers and strings ignore them"),
]
out = [{"id": i, "property": p, "status": "known", "text": t} for i, p, t in K]
for p, c, t in F:
    out.append({"id": "fixed-" + c, "property": p, "status": "fixed", "commit": c, "text": f"fixed: property={p} {c} {t}"})
json.dump({"findings": out}, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)
