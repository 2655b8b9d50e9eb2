#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLI = "crates/pica-cli/src/commands/"
IN, PR, CF, HI, FA = "inputs", "programs", "configurations", "histories", "fault_sequences"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, models
P = [
("C01", "Record lines are read exactly and written back byte for byte",
 "A line is accepted as a record exactly if it is one or more fields of the PICA+ grammar (tag, optional two or three digit occurrence, subfields of any bytes) and ends in a newline; every other line is invalid. "
 "An accepted record that a command passes through unchanged is written back as the same bytes, including values that are empty, not valid UTF-8 or contain any byte but the two separators.",
 [IN], "all byte lines: every one-byte edit of short records, every line over a token alphabet, random records over all tags, codes, occurrences and value bytes",
 "the tests read a fixture file and some generated well-formed records; lines that are nearly records, and rewriting by commands, are sampled by a handful",
 ["src/primitives/parse.rs", "src/primitives/record.rs", "src/record.rs", "src/reader.rs", "src/writer.rs"],
 [("field and record parser", "src/primitives/parse.rs"), ("record write-back of read bytes or re-encoded fields", "src/record.rs write_to")], "MCRecord"),
("C02", "Input streams are read completely, in order, and errors are placed correctly",
 "A command reads its files one after the other and each file line by line, from plain files, gzip files of any number of members, or standard input, whatever the line lengths and whether or not the last line ends in a newline. "
 "An invalid line is skipped if skipping is on; otherwise the run ends with exit status 2 and a message naming the right file and line, after the records before it were handled. "
 "The invalid command writes exactly the lines the other commands cannot read.",
 [IN, HI], "all sequences of valid and invalid lines over several files and transports, for every record command",
 "tests use one or two files with at most one kind of bad line; the order and position of bad lines, file boundaries, member boundaries and buffer sizes are not varied",
 ["src/reader.rs", CLI + "invalid.rs"],
 [("line reader and skip decision", "src/reader.rs"), ("invalid", CLI + "invalid.rs")], "MCPipeline"),
("C03", "A filter condition selects exactly the records it describes",
 "Comparison, prefix, suffix, substring, regular expression, membership, similarity, cardinality and existence conditions on subfields and fields hold exactly as documented, for the ANY and ALL quantifiers, for repeated or missing fields and subfields, and with or without ignoring case. "
 "Ignoring case folds Unicode letters on both sides, and the similarity threshold is exact.",
 [IN, PR], "all conditions over all records: every operator, quantifier and case setting against every small combination of values, and random ones",
 "the tests try each operator on a few values of one record; combinations of operator, quantifier, multiplicity and case are not covered",
 ["src/matcher/subfield", "src/matcher/field", "src/matcher/operator.rs", "src/matcher/options.rs"],
 [("subfield conditions", "src/matcher/subfield/*.rs"), ("field conditions", "src/matcher/field/*.rs")], "MCMatcher"),
("C04", "Boolean filter expressions follow precedence, negation and grouping",
 "In filter expressions negation binds tightest, then &&, then exclusive or, then ||, and parentheses override this, on field level and inside braces alike, for expressions of any length and depth. "
 "Further expressions given as --and and --not narrow the selection, those given as --or widen it, and inverting a filter selects exactly the other records.",
 [IN, PR], "all boolean expressions: exhaustive truth tables for up to four operands with all groupings, longer and deeper ones at random",
 "tests show a few expressions with two or three operands; truth tables for mixed connectives are infinite in number",
 ["src/matcher/record.rs", "src/matcher/builder.rs", "src/matcher/field", "src/matcher/subfield", CLI + "filter.rs"],
 [("expression parsers", "src/matcher/field, src/matcher/subfield"), ("combination of several expressions", "src/matcher/builder.rs")], "MCBool"),
("C05", "Tag, occurrence and code patterns match exactly; keep and discard follow them",
 "A tag pattern matches a tag position by position (character, dot or class), an occurrence pattern matches the occurrences it names (none and 00 being the same, a range by string order, * all), and a code pattern matches the codes in it. "
 "--keep leaves exactly the matching fields and --discard exactly the others, in their order, and a record left without fields is not written.",
 [IN, PR], "all tags, all 1,101 occurrences and all 62 codes against random patterns; random keep and discard lists",
 "tests check a handful of tags and occurrences per pattern",
 ["src/matcher/tag.rs", "src/matcher/occurrence.rs", "src/primitives/parse.rs", "src/record.rs"],
 [("tag patterns", "src/matcher/tag.rs"), ("occurrence patterns", "src/matcher/occurrence.rs"), ("keep and discard", "src/record.rs")], "MCTags"),
("C06", "Queries project exactly the values their paths denote, row by row",
 "A path yields the values of the selected codes of every field it matches, in record order; a query yields the table of all combinations of its fragments' rows, with empty cells where there is no value. "
 "Squash joins the values of one field, merge joins all rows of a fragment, and select writes every row that is not empty, once if unique, without rows that have an empty cell if asked, as correctly quoted CSV or TSV.",
 [IN, PR], "all queries over all records: every pair of small fragments over every small record and random queries with all options",
 "tests show single queries on a fixture record; row combinations, repeated fields and options together are not explored",
 ["src/path.rs", "src/query.rs", CLI + "select.rs"],
 [("path evaluation", "src/path.rs"), ("row products", "src/query.rs"), ("row output", CLI + "select.rs")], "MCQuery"),
("C07", "Format strings render each field exactly as written",
 "A format renders each matching field to one string from its values, with bounds, prefixes, suffixes, modifiers (strip, trim, remove blanks, lower, upper case) applied in fixed order, groups, concatenation, and conditional concatenation that stops at the first empty part. "
 "Fields that render to nothing contribute no value.",
 [IN, PR], "all format expressions over all fields: every modifier set and bound on small fields, random nested formats",
 "tests render a few formats on one field each",
 ["src/fmt/mod.rs", "src/fmt/parser.rs", "src/query.rs"],
 [("rendering", "src/fmt/mod.rs"), ("format parser", "src/fmt/parser.rs")], "MCFormat"),
("C08", "Every command selects the same records for the same options",
 "Filter expression, allow and deny lists, case and similarity settings, skipping and limit mean the same for every command that has them: the records a command works on are the first LIMIT records that are valid, named by the allow lists if any are given, not named by the deny lists, and match. "
 "List files are read in all their formats with the documented column, and the list value is taken from the identifier or the given path.",
 [IN, CF], "all combinations of selection options over all inputs, for twelve commands",
 "each command is tested with one option at a time on one fixture",
 [CLI + "filter.rs", CLI + "count.rs", CLI + "print.rs", CLI + "hash.rs", CLI + "select.rs", CLI + "frequency.rs", CLI + "split.rs", CLI + "partition.rs", "crates/pica-cli/src/utils.rs"],
 [("filter set", "crates/pica-cli/src/utils.rs"), ("selection loop of each command", CLI + "*.rs")], "MCSelect"),
("C09", "Partition and split put each selected record in exactly the right files",
 "Split writes the selected records, in order, to consecutively numbered files that are all full but the last; partition writes each selected record to the file of each of its distinct values of the path and to no other, keeping the input order in every file. "
 "File names follow the template, and compressed output holds the same records.",
 [IN, CF], "all inputs, sizes, paths and templates, with limits, invalid lines, repeated values and many values",
 "tests partition one fixture by one or two paths",
 [CLI + "partition.rs", CLI + "split.rs"], [("partition", CLI + "partition.rs"), ("split", CLI + "split.rs")], "MCFiles"),
("C10", "Concat and output options keep every record once and lose none",
 "Concat writes all records in input order; with unique, the first record of every key and no other. "
 "Appending runs keep what the file held, plain or compressed; a run that does not append leaves only its own output; a tee file holds the same as the main output.",
 [IN, HI, CF], "all multisets of keys, all sequences of appending runs, all combinations of output options",
 "tests concatenate two fixtures; sequences of runs onto one file are not explored",
 [CLI + "concat.rs", CLI + "filter.rs", "src/writer.rs"], [("duplicate detection", CLI + "concat.rs"), ("output creation", "src/writer.rs")], "MCConcat"),
("C11", "Slice takes exactly the given positions; sample is a true sample",
 "Slice writes the records at the positions from start to before end (or length many), where skipped invalid lines take up positions but do not count for the length, up to the limit. "
 "Sample writes as many records as asked, or all if there are fewer, never one twice, the same ones for the same seed, and every record can be drawn and can be left out.",
 [IN, CF, HI], "all windows over all small inputs with invalid lines; samples of every size and over hundreds of seeds",
 "tests slice one fixture with few windows and sample with one seed",
 [CLI + "slice.rs", CLI + "sample.rs"], [("position counting", CLI + "slice.rs"), ("reservoir", CLI + "sample.rs")], "MCSlice MCSample"),
("C12", "Explode splits a record into its holdings and items without loss or mixing",
 "Exploding to local level yields, per holding, the title fields and all fields of that holding; to copy level, per item, the title fields, the local fields of its holding and the fields of that item; to main level the record itself. "
 "Selection, limit, keep and discard apply to the resulting records.",
 [IN, CF], "all level structures up to a size, and random records",
 "tests explode a few fixture records",
 [CLI + "explode.rs"], [("level grouping", CLI + "explode.rs")], "MCExplode"),
("C13", "Frequency, count and describe report true numbers in the promised order",
 "Frequency counts every row of its query (once per record if unique) and lists the rows with at least the threshold's count, most frequent first or last first if reversed, equal counts in ascending order of the values, cut to the given number of rows. "
 "Count reports the number of selected records, fields and subfields, and describe the number of subfields per tag and code.",
 [IN, CF], "all inputs with ties, thresholds, cuts and reversals",
 "tests count fixtures whose ties are few",
 [CLI + "frequency.rs", CLI + "count.rs", CLI + "describe.rs"], [("frequency table", CLI + "frequency.rs"), ("counting", CLI + "count.rs"), ("describe", CLI + "describe.rs")], "MCTables"),
("C14", "Hash lists each selected record with the digest of exactly its bytes",
 "For each selected record, in order, hash writes its first identifier (empty if it has none) and the SHA-256 digest of the record as it is written, so that equal lines have equal digests wherever they are read from.",
 [IN], "all records, lengths around block sizes, identifiers that need quoting, repeated and missing identifiers",
 "tests hash one fixture",
 [CLI + "hash.rs", "src/record.rs"], [("digest of the written form", "src/record.rs sha256"), ("output", CLI + "hash.rs")], "MCSelect"),
("C15", "Converted and printed records show every field, code and value unambiguously",
 "Convert and print show every record in input order, every field with tag and occurrence, and every subfield with code and complete value, escaped so that the value can be read back, in PICA+, plain, JSON, XML, binary, import and human readable form. "
 "JSON and XML output is one well-formed document for any number of records, including none.",
 [IN], "all values of one byte, pairs of special characters, random records, in every format",
 "tests convert fixtures without special characters",
 [CLI + "convert", CLI + "print.rs"], [("format writers", CLI + "convert/*.rs"), ("printing", CLI + "print.rs")], "MCRender"),
]

EXTRA = os.path.join(HERE, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

TECH = "TLA+ specification model-checked with TLC (%s); recorded runs of the real program validated against it by TLC trace validation"


def main():
    checks, lines = [], []
    for pid, title, st, over, text, why, files, mech, models in P:
        assert len(title) <= 80, title
        lines.append(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                 "why_tests_cant": why,
                                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, ensure_ascii=False))
        if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            continue
        checks.append({"property": pid, "quick_cmd": "bash check.sh %s quick" % pid, "thorough_cmd": "bash check.sh %s thorough" % pid,
                       "technique": TECH % models.replace(" ", ", "), "level": "model_checking",
                       "level_note": "the design model is explored exhaustively within its bounds; the code is bound to it by exhaustive small and random large inputs, each run judged by TLC"})
    open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    claimed = {c["property"] for c in checks}
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": globals().get("NA", [])}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(lines), "properties;", len(checks), "checks; unclaimed:", [p[0] for p in P if p[0] not in claimed])


main()
