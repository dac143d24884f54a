def d(i, how, bounds, cost): D[i] = dict(how=how, bounds=bounds, cost=cost)
d("P01", "Schemas with the four bound keywords, each present or absent with a symbolic value; the generated value is compared with the symbolic bounds, whole for integers. Reachability of both ends is an existential check.", "integers of [-40,40], quarter steps for fractions, magnitudes up to 2^53 in `wide`.", 7)
d("P02", "As P01 with multipleOf; divisibility is decided over the rationals (float multiples with the tolerance a user would apply: nearest multiple).", "bounds [-25,25], five integer and seven decimal multiples.", 5)
d("P03", "Satisfiability is decided by a symbolic *witness*: if some witness in range satisfies all keywords the schema has to be accepted, and if the schema is accepted the generated value satisfies them; `integer`/`single` use the closed form for the smallest candidate.", "bounds [-20,20], multiples from a list of six, all presence combinations.", 60)
d("P04", "Symbolic lengths; faker's text fragments are symbolic in length and content.", "lengths up to 60, one nesting level.", "3–60")
d("P05", "Expressions assembled from blocks (literals, classes, negated classes, escapes, dot, groups, alternation) and repeats; the generated text is symbolic and the matcher formula (section 1) is asserted. The regular expression itself is concrete per path: a symbolic expression would need a symbolic parser tree.", "15 blocks × 9 repeats, pairs of blocks in four shapes, repeat counts 0–6, unbounded repeats up to 3 (or the default).", 10)
d("P06", "Declared properties of six kinds with symbolic limits, any required subset, extra keywords; each value judged by the oracle. `patterns` gives declared names one or two matching patterns with symbolic limits.", "up to four declared properties, minProperties up to 3, step limits up to 5.", 46)
d("P07", "Key budget: symbolic counts against declared, required, additional, pattern properties and configured defaults; counts of keys and membership asserted.", "counts up to 14 (bare), 2–4 with properties.", 26)
d("P08", "Lengths, prefix in both forms, items as schema, false or absent, additionalItems.", "counts up to 14, prefixes up to two.", 10)
d("P09", "minContains/maxContains/minItems/maxItems symbolic; the number of elements satisfying contains is counted by the oracle; positional elements, nested contains, warning texts.", "limits up to 6 (3 next to maxContains).", 22)
d("P10", "Element kinds with small ranges so that repeats are forced; pairwise difference by JSON equality; the number of draws bounds the attempts.", "up to 3 elements, attempts 1–30.", 10)
d("P11", "Lists with 13 kinds of values next to eight keyword families with symbolic limits; membership and validity by the oracle, reachability existential, rejection iff no value qualifies.", "two or three values per list.", 4)
d("P12", "Exactly-one is computed by the oracle over the branches; attempts limited to one or two so that the retry loop is unrolled completely.", "eight branch families with limits [0,4], attempts up to 5 in `hopeless`.", 10)
d("P13", "At-least-one and the surroundings by the oracle; acceptance and reachability separately.", "ten families, limits [0,8].", 4)
d("P14", "Two or three branches spread over the schema itself, allOf, or nested allOf (`spread`), symbolic limits on both sides, every branch judged by the oracle; empty intersections have to be reported.", "limits up to ±6, two properties, two items.", 40)
d("P15", "For each keyword family the negated schema has its own symbolic limits; validity of negated and surrounding schema by the oracle.", "limits [-4,6].", 52)
d("P16", "Condition, then and else with symbolic thresholds, also several gathered by allOf and nested ones.", "thresholds [0,9], attempts 1–2.", 26)
d("P17", "Eighteen targets (list indices, escapes, `$defs`, nested) at ten places; the value has to satisfy the designated schema, which carries a symbolic limit. 35 dangling pointers have to be reported.", "symbolic limit [0,9]; pointer texts from the lists.", 5)
d("P18", "Recursive forms with symbolic depth limits; expansions are counted in the generated value; non-termination shows as exceeding the instruction limit or the stack (candidate `terminates`), confirmed natively with a timeout.", "18 circular forms, parse depths 0–6, generation depth 1 (quick) to 2.", 55)
d("P19", "`ScaledRetryBudget` and the `Should…` predicates are called on fully symbolic counters (also of everyday size); containers past the thresholds judged structurally.", "limits up to 12 step by step; up to 5000 in `far`.", 33)
d("P20", "Every option symbolic or absent; results compared with the documented default; deep equality of the caller's options before and after; sequences of two calls.", "limits up to 12.", 33)
d("P21", "A virtual tree with links, parent segments and sibling directories; references assembled from segments or symbolic text; every recorded read has to be permitted by an independent policy; replay uses a scratch directory and inotify.", "three segments, seven allow lists, four symbolic path characters.", 28)
d("P22", "Servers are a table; references, bases, redirect chains and allow lists chosen symbolically; every recorded request judged by an independent policy.", "22 references, two redirects.", 25)
d("P23", "All reference forms at 14 places with everything off, or one kind on: the access log has to be empty (of that kind).", "17 texts, three bases.", 41)
d("P24", "Type lists up to three entries with keywords of other types; inference table of 34 keywords; reachability of each listed type.", "limits [0,3].", 6)
d("P25", "Any keyword with 29 kinds of values, pairs, nesting, reference texts, damaged documents, limits of any size, option values: an escaping panic is the violation.", "documents of one or two keywords; symbolic texts up to three bytes.", "53–100")
d("P26", "Twelve sub-schemas that are contradictory exactly when two symbolic limits say so, at 16 places (two levels in `nested`): the errors have to be non-empty exactly then.", "limits [-3,3].", 6)
d("P27", "Time based formats over symbolic instants, draws symbolic; the independent grammar (`formats.go`) is asserted on the symbolic text. Formats delegated to faker rest on faker's promise (checked in the replay), so for them only the wiring is decided.", "instants 1970–2100, durations of the generator's range.", 20)
d("P28", "Each exported helper is called with symbolic bounds and a symbolic raw source.", "bounds up to ±2^31, lists up to four.", 10)
d("P29", "The validators are executed on symbolic byte strings and compared with the independent grammars.", "3–8 characters over each format's alphabet, position by position for the long ones.", 25)
d("P30", "Schemas are parsed such that the library sees the re-encoded text; the value kept, dropped or rejected for listed values tells whether the re-encoding kept its meaning (the oracle works on the original document).", "24 keywords with 13 kinds of values, depth two.", 15)
d("P31", "`cli.Run` (an AST copy in which `os.Exit` panics) on symbolic flags, files and standard input; output, exit code, files and access log asserted.", "flag lists in the harnesses.", 6)
d("P32", "Array keywords with symbolic counts next to unevaluatedItems (false or a schema), flat and in combinations; the oracle computes which elements are accounted for and judges the others.", "counts up to 4, one combination around.", 6)
CAUGHT = {'p17-else-is-then': 'P17 (missed at first; pointers into if, else, not and unevaluatedItems were added)',
 'p16-typed-branch': 'P16 (missed at first; branches with a type of their own were added)',
 'p10-extra-attempt': 'P10 (missed at first: the attempts were not counted; the engine and the replay now count draws)',
 'p02-three-decimals': 'P02 (missed at first; finer decimals were added)',
 'p04-sixteen-sentences': 'P04 (missed at first; lengths of thousands were added, where whatever faker makes is too short)',
 'p25-type-list': 'P25 (missed at first; `broken` generates from every kind of broken sub-schema at every place)',
 'p08-open-items': 'P08 (missed at first; empty schemas for the elements were added)',
 'p30-single-type-list': 'P30 (missed at first; type lists of one entry were added to its keywords)',
 'p17-nested-document': 'P17 (missed at first; chains of files over several directories were added)',
 'p14-enum-text': 'P14 (missed at first; values that read the same were added, and the judge no longer follows the library where it takes a number and a text for equal)',
 'p03-window-ignores-step': 'P03 (missed at first; single bounds next to a multipleOf larger than the default window were added)',
 'p18-null-keeps-reference': 'P18 (missed at first; whatever an expansion may end with, null included, is now followed by further uses of the same reference)',
 'p22-hostname': 'P22 (missed at first; permitted hosts written as a URL with a port were added)',
 'p14-exclusive-maximum': 'P14 (missed at first; pairs of exclusive limits were added)',
 'p26-deep-errors': 'P26 (missed at first; contradictions up to twelve levels down were added)',
 'p29-offset-hour': 'P29 (missed at first; the digits of an offset now reach beyond its limits)',
 'p31-three-entries': 'P31 (missed at first; lists of five entries were added)',
 'p32-unique-unevaluated': 'P32 (missed at first; uniqueItems next to unevaluatedItems was added)',
 'p14-property-of-last': 'P14 (missed at first; enums and constants on a property of two branches were added)',
 'p06-blank-names': 'P06 (`_odd`)',
 'p08-tuple-by-name': 'P08 (`_dozen`, `_siblings`)',
 'p10-last-eight': 'P10 (`_dozen`)',
 'p11-enum-sixteen': 'P11 (`_dozen`)',
 'p12-first-eight': 'P12 (`_dozen`)',
 'p14-branches-in-pairs': 'P14 (`_dozen`)',
 'p20-patterns-remembered': 'P20 (`_again`)'}
SEEDNOTE = "Discarded because the stable tests catch them: p04-single-extension, p08-contains-uncounted, p13-anyof-beside-oneof, p16-else-unchecked, p16-third-if, p08-unevaluated-tuple. Discarded because it changes nothing observable (the error is reported by another route): p26-branch-unreported; because it had no effect: p05-bounded-repeat."
FINDNOTE = "The known finding is recorded rather than repaired because honouring the four options would change what every existing caller gets for unbounded numbers and strings (their defaults are zero, and the documented default differs from what is generated today)."
