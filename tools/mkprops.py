#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Little-endian integer codecs are exact inverses and touch nothing else",
  "Every fixed-width little-endian encoder (16, 24, 32 and 64 bits, in-place and appending) writes exactly the little-endian bytes of its value, leaves every other byte of the destination as it was, and the matching decoder returns the value again. Appended strings are a length prefix (1 or 2 bytes) followed by exactly the bytes of the string, and appended decimal digits are the canonical decimal form of the value.",
  ["inputs"], "all values of each width, all destination buffers (any length, offset, spare capacity), all strings up to the prefix limit",
  "No test touches the codecs directly; a byte order or mask slip on the high bytes only shows for values that the small test font never uses.",
  ["internal/helpers.go"], [("Decode*/Encode*/Append* LE helpers, AppendShortString, AppendString, AppendByteDigits", "internal/helpers.go")],
  ["results and destination bytes of the helpers"])
p("C02", "Identifier names are accepted exactly when they follow the naming grammar",
  "A basic name is accepted exactly when it has 1 to 32 bytes, all of them ASCII letters, digits or hyphens, with no hyphen at either end and no two hyphens in a row. A spaced name is accepted exactly when it has 1 to 32 bytes, all of them ASCII letters, digits, hyphens or spaces.",
  ["inputs"], "all byte strings", "The tests only pass a handful of valid names; rejection has no test at all.",
  ["internal/parsing_buffer.go"], [("ValidateBasicName, validateBasicSpacedName, isAZaz09", "internal/parsing_buffer.go")],
  ["returned error, also through the builder setters that take names"])
p("C03", "Date validity follows the Gregorian calendar and never crashes",
  "A date (year, month, day, where zero means unspecified) is reported valid exactly when nothing finer than an unspecified field is specified, the month is at most 12 and the day does not exceed the length of that month in the Gregorian calendar; the query never crashes. Completeness, the has-day/month/year queries and the month name agree with the fields, and a date is stored as its little-endian year followed by month and day.",
  ["inputs"], "all 2^32 (year, month, day) triples", "TestLeapYears samples a few years and never asks for the validity of incomplete dates.",
  ["date.go"], [("Date.IsValid, isLeapYear, monthDays, IsComplete, Has*, MonthName, appendTo", "date.go"), ("DecodeDate", "internal/helpers.go")])
p("C04", "The fixed-capacity queue is an exact FIFO/deque through wraps and resizes",
  "For every sequence of pushes, pops at both ends, head/tail reads, peeks, peek confirmations/discards, clears and capacity changes, the circular queue behaves as an ideal bounded sequence: same elements in the same order, same sizes, and the same refusals. A capacity change either succeeds keeping the contents in order or refuses and changes nothing, for every 16-bit capacity.",
  ["histories", "inputs"], "all operation histories; all capacities 0..65535, head positions, sizes and element values",
  "One test walks one short history on tiny capacities; index overflow near 65535 and resizes with wrapped contents are not reached.",
  ["internal/circular_buffer.go", "internal/helpers.go"], [("CircularBufferU16 methods; index helpers; GrowSliceByN", "internal/circular_buffer.go")],
  state=[{"name": "abstract sequence", "meaning": "element i is buffer[(head+i) mod capacity]", "where": "CircularBufferU16"}])
p("C05", "The packed boolean list stores each flag independently",
  "Writing a flag of the packed boolean list changes that flag and no other, reads return the last written value, pushing appends exactly one flag, the set-all and clear-all operations reach every flag, and index checks reject indices outside the list.",
  ["inputs", "histories"], "all lists, indices and values", "No test exercises the list; a wrong mask shows only for particular index pairs.",
  ["internal/helpers.go"], [("BoolList", "internal/helpers.go")])
p("C06", "Sorted-slice search and edit helpers are correct on every slice",
  "Binary search returns the first position whose element is not smaller than the target and whether it is present; ordered insertion yields the same sorted set plus the element, without duplicates and keeping order; element deletion removes exactly the given position keeping the order of the others; growth and resizing helpers return the requested length and growth keeps the existing elements.",
  ["inputs"], "all slices sorted (or strictly sorted, for insertion), all targets, all positions and capacities",
  "The helpers are only reached indirectly with two or three elements.",
  ["internal/helpers.go"], [("BadBinarySearch, BasicOrderedNonRepeatInsert, DeleteElementAt, GrowSliceByN, GrowSliceByOne, SetSliceSize", "internal/helpers.go")])
p("C07", "Rasterization accepts or rejects any byte string without crashing",
  "Rasterizing any sequence of mask operation bytes either yields an error or a mask whose bounds are exactly the smallest rectangle containing every pixel the operations draw (no mask at all when nothing is drawn), and every pixel has the colour index of the last operation that drew it. It never reads past the operations and never crashes, for operation sequences of the size that fits in a font.",
  ["inputs"], "all byte strings", "TestRngRasterize samples random streams for round trips of valid masks only; malformed streams and exact bounds are not judged.",
  ["mask/rasterize.go"], [("Rasterize, computeRasterOpsRect, nzint8AsInt", "mask/rasterize.go")], ["returned mask and error"])
p("C08", "Encoding a mask and rasterizing it again gives the same mask",
  "For every glyph mask whose coordinates and extents fit the encoder's limits, rasterizing the encoded operations gives back a mask with the same non-zero pixels at the same coordinates, the encoder does not modify the mask and appends after the given data without altering it. The tight bounding rectangle computed for a mask contains every non-zero pixel and touches non-zero pixels on all four sides, and is empty exactly for blank masks.",
  ["inputs"], "all masks with coordinates in -128..127", "Encoder tests use fixed pictures and a few random masks with few colours; correctness depends on how fragments touch.",
  ["mask/encoder.go", "mask/encoder_helper_funcs.go", "mask/raster_fragment.go", "mask/compute_rect.go", "mask/rasterize.go"],
  [("Encoder.AppendRasterOps, computeMaskFragments", "mask/encoder.go"), ("countNeighbours, findLine, findRect, findDiagonal", "mask/encoder_helper_funcs.go"), ("rasterFragment.ClearFrom", "mask/raster_fragment.go"), ("ComputeRect", "mask/compute_rect.go")])
p("C09", "Header fields are read from exactly the bytes the format assigns to them",
  "For every well-formed font, the format version, font id, major/minor versions, the three dates, and the name, family, author and about texts are exactly the bytes that the format places there, whatever the lengths of the preceding texts.",
  ["inputs"], "all header contents, each text 0..255 bytes (about: 0..65535)", "Tests use one short header; the text positions only go wrong for longer texts.",
  ["font.go"], [("FontHeader accessors", "font.go")], ["Font.Header() accessors"])
p("C10", "Metrics are read from their own bytes and validated",
  "For every font, each metric accessor returns the byte (or pair of bytes) that the format assigns to it, derived line heights are the exact sums without overflow, and metric validation accepts exactly the combinations the format allows: at least one glyph, a proper vertical-layout flag, non-zero ascent, extra ascent within ascent, and vertical interspacing only with vertical layout.",
  ["inputs"], "all metric section contents", "One font is tested.",
  ["font.go"], [("FontMetrics accessors and Validate", "font.go"), ("BoolErrCheck", "internal/helpers.go")])
p("C11", "Dye and palette queries return exactly the stored sections",
  "For every well-formed font, dye and palette counts, names, alphas and colours are exactly the ones stored, in order, each key owning its own consecutive run; total colour count and the exported Go palette agree with them.",
  ["inputs"], "all colour sections with up to 255 indices", "Only fonts with at most a couple of dyes are tested.",
  ["font.go"], [("FontColor accessors", "font.go")])
p("C12", "Glyph data and placement come from the glyph's own record",
  "For every well-formed font and every valid glyph index, the advance, placement and rasterized mask are taken from exactly that glyph's record, with and without vertical layout; out-of-range indices are refused.",
  ["inputs"], "all glyph tables and glyph indices", "The test font has one glyph.",
  ["font.go", "glyph.go"], [("FontGlyphs.Advance/Placement/RasterizeMask, getGlyphDataOffsets", "font.go"), ("appendWith(out)VertLayout", "glyph.go")])
p("C13", "Looking up a glyph by name finds every named glyph and nothing else",
  "For every font whose glyph names are stored in increasing lexicographic order, looking up a stored name returns its glyph, and looking up any other string reports the missing glyph.",
  ["inputs"], "all sorted name tables and all query strings", "No test looks a name up.",
  ["font.go"], [("FindIndexByName, getNthGlyphName, bytesSmallerThanStr, bytesEqStr", "font.go")])
p("C14", "Settings, options and words resolve to the stored texts",
  "For every well-formed font, each word index resolves to its stored word (or the predefined word of that number), each setting reports its own name and number of options, and each option name is the word that the setting's own definition assigns to it.",
  ["inputs"], "all settings sections; all word indices 0..255", "Tests define no custom words and few settings.",
  ["font.go", "words.go"], [("FontSettings accessors", "font.go"), ("GetPredefinedWord", "words.go")])
p("C15", "Switch evaluation is the mixed-radix number of the chosen options",
  "For every well-formed font, every switch and every assignment of in-range options to settings, the selected case is the mixed-radix number of the switch's settings, the first setting being the most significant; so different option choices give different cases, numbered 0 to combinations-1.",
  ["inputs", "configurations"], "all switches with at most 254 cases, all in-range settings", "No test evaluates a switch with more than one setting.",
  ["font.go"], [("FontMapping.EvaluateSwitch, GetNumOptions", "font.go")])
p("C16", "Code point lookup selects the stored glyph group of the active case",
  "For every well-formed font, code point and settings, mapping lookup finds exactly the code points in the table; the group returned is the one stored for the active switch case, and its size, animation flags and glyph selections are exactly the stored ones, for direct, list and range groups. The cached lookup variant always gives the same answer as the uncached one.",
  ["inputs", "configurations"], "all mapping tables, code points, settings and choices", "Tests only use direct mappings.",
  ["font.go"], [("FontMapping.Utf8/Utf8WithCache, GlyphMappingGroup", "font.go")])
p("C17", "Settings and mapping caches never change an answer",
  "For every history of setting changes, lookups, cache drops and resets, a cached mapping case or condition value that is reported as available equals the last value stored since the last setting change, and a mapping obtained through the mapping cache (dropped after each setting change that affects mappings) equals the uncached mapping under the current settings. Cache capacity and eviction never affect results.",
  ["histories"], "all histories of set/get/lookup/drop/reset on any cache size", "No test uses the caches.",
  ["settings_cache.go", "mapping_cache.go"], [("SettingsCache", "settings_cache.go"), ("MappingCache, mappingEntry, updateMRU", "mapping_cache.go")],
  state=[{"name": "cached entries", "meaning": "code point to entry index plus recency list", "where": "mapping_cache.go"}])
p("C18", "Kerning lookup returns the stored value of the pair or zero",
  "For every well-formed font with sorted kerning pairs, horizontal and vertical kerning lookups return the signed value stored for that ordered pair in the matching table, and zero for pairs that are not stored.",
  ["inputs"], "all pair tables and all glyph pairs", "Tests have no kerning.",
  ["font.go"], [("FontKerning.Get/GetVert", "font.go")])
p("C19", "Rewrite conditions evaluate like the boolean expressions they encode",
  "For every well-formed encoded condition and every settings assignment, condition evaluation equals the value of the boolean expression it encodes (and/or groups of any nesting, comparisons between settings and with constants), irrespective of short-circuiting.",
  ["inputs", "configurations"], "all well-formed conditions and settings", "No test evaluates a condition.",
  ["font.go"], [("FontRewrites.EvaluateCondition, evalConditionSubexpr, skipConditionSubexpr", "font.go")])
p("C20", "Rewrite rules and sets decode to exactly what is stored",
  "For every well-formed font, rule and set lookups return exactly the bytes of the requested rule or set; head, body, tail and output lengths, the output sequence, ranges and list elements are enumerated completely and in order, and enumeration stops at the first error the visitor returns and reports it.",
  ["inputs"], "all rules and sets, glyph and code point variants", "Only indirectly reached with short rules.",
  ["font.go"], [("GlyphRewriteRule, Utf8RewriteRule, GlyphRewriteSet, Utf8RewriteSet, Get*Rule, Get*Set", "font.go")])
p("C21", "Rule scanning yields the rule's fragments or an error, never a crash",
  "Scanning the match sequence of any rule bytes yields, one element at a time, exactly the elements (sets or ranges) of head, body and tail in order, and malformed rules end in an error; no rule bytes make the scanner crash or loop forever.",
  ["inputs"], "all byte strings as rules, glyph and code point variants", "Tests scan a few rules and a few specific malformed ones.",
  ["internal/rerules/glyphrule/rule_scanner.go", "internal/rerules/utf8rule/rule_scanner.go"], [("RuleScanner", "rule_scanner.go")])
p("C22", "Rewrite automaton states keep disjoint sorted transitions",
  "Searching the transitions of a rewrite automaton state finds the one containing the symbol, if any. Inserting a range into a state keeps its transitions sorted and pairwise disjoint, and the set of symbols covered becomes exactly the union of the old ones and the range.",
  ["inputs", "histories"], "all states, symbols and ranges", "Compiler tests insert a few separate ranges; splits are never exercised.",
  ["internal/rerules/glyphrule/decision_tree_state.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_state.go"], [("confrontRanges, findTransition, split functions", "decision_tree_state.go")])
p("C23", "Streaming rewrite equals leftmost-longest batch rewriting",
  "Feeding a text symbol by symbol through the rewrite engine and finishing the sequence emits exactly the text with rule matches replaced, independent of how internal buffering falls, each symbol being consumed once and passing through unchanged when no rule matches.",
  ["inputs", "histories"], "all rule sets and input sequences", "TestTester covers a few rules.",
  ["internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "rerules/glyph_tester.go", "rerules/utf8_tester.go"], [("Tester.Feed/Break/FinishSequence", "tester.go")])
p("C24", "Buffered reads return the stream's bytes in order and stop at its end",
  "For every underlying stream (with any chunking, empty reads and errors), sequential reads return exactly the bytes of the stream in order, a read past the end is an error rather than a crash, data beyond the size limit is refused, and the end-of-input check succeeds exactly when every byte has been consumed.",
  ["inputs", "fault_sequences"], "all streams, chunkings and read sequences", "Tests parse one in-memory font.",
  ["internal/parsing_buffer.go"], [("ParsingBuffer reads, readMore, readUpTo, EnsureEOF", "internal/parsing_buffer.go")])
p("C25", "Parsing arbitrary bytes never crashes and accepts only complete fonts",
  "Parsing any byte stream terminates with a font or an error and never crashes; an accepted font has every section at the position given by the lengths of the preceding ones, all inside the data, in order and ending exactly at its end, so any truncation of a font and any font with trailing bytes is rejected.",
  ["inputs", "fault_sequences"], "all byte streams", "TestExpectedParsing parses one valid font.",
  ["parse.go", "internal/parsing_buffer.go", "font.go"], [("Parse", "parse.go"), ("section Validate methods", "font.go")])
p("C26", "Builder operations enforce the format limits and change nothing on refusal",
  "Builder setters and adders accept exactly values within the documented limits, return an error (and leave the font being built unchanged) otherwise, and the corresponding getters return what was last set.",
  ["inputs", "histories"], "all argument values and operation histories", "Tests use a single happy path.",
  ["builder/font_builder_props.go", "builder/font_builder_color.go", "builder/font_builder_settings.go", "builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go"], [("Font setters and adders", "builder/")])
p("C27", "Builder sub-encoders emit exactly the format's bytes",
  "Each mapping group, rewrite rule, rewrite set and placement record is appended as exactly the byte sequence the format defines for it, after the existing data and without altering it.",
  ["inputs"], "all groups, rules and sets within limits", "Only seen through one small font.",
  ["builder/font_builder_subtypes.go", "builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "glyph.go"], [("appendTo/AppendTo methods", "builder/")])
p("C28", "A built font survives export and parsing with all its content",
  "Any font the builder accepts can be exported and parsed back to identical bytes, and every query on it (header, metrics, colours, glyphs and names, settings and words, mappings, rewrite rules and sets, kerning) returns what was given to the builder; building twice gives the same bytes.",
  ["inputs", "programs"], "all sequences of builder operations that build successfully", "TestBasicFontBuild and TestExpectedParsing cover one minimal font.",
  ["builder/font_builder.go", "font.go", "parse.go"], [("Font.Build", "builder/font_builder.go"), ("Font.Export", "font.go"), ("Parse", "parse.go")])
p("C29", "Loaned scratch instances are never shared between concurrent users",
  "At any moment each instance handed out by the scratch instance pool is held by at most one user, under every interleaving of retrievals and releases, and releasing makes the pooled instance available again.",
  ["schedules"], "all interleavings of concurrent retrieve/release calls", "Tests are single threaded.",
  ["internal/single_instance_pool.go"], [("SingleInstancePool.Retrieve/Release", "internal/single_instance_pool.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
