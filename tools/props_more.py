SRC = "crates/pica-cli/src/"
P += [
("C16", "Check reports exactly the rule violations of the selected records",
 "For every selected record and every rule set in whose scope it lies, check writes one line with identifier, rule, level and offending values for each selected rule that the record violates (one only with fast termination), and no line otherwise. "
 "Allow lists, dates, duplicates, filters, ISNI, language and JEL codes and Unicode forms are judged value by value; a link is reported exactly if no record of the whole input, in whatever order, is its target.",
 [IN, HI], "all three-letter codes, all JEL-like codes, calendar days and times, all check digits; all orders of linked records; random rule sets over random records",
 "tests show a violation or two per kind of rule; the code tables, calendar and link orders are not sampled by them",
 [CLI + "check/mod.rs", CLI + "check/rule.rs", CLI + "check/set.rs", CLI + "check/checks", CLI + "check/writer/mod.rs"],
 [("rules", CLI + "check/checks/*.rs"), ("rule sets", CLI + "check/set.rs"), ("selection of rules", CLI + "check/mod.rs")], "MCRules"),
("C17", "The configuration keeps what was set and every command obeys it",
 "After any history of config invocations each option has the value last set or its default, a failed or reading invocation leaves the file alone, and options not named keep their values, wherever the file lies and however it is written. "
 "Every record command skips invalid lines if the option or the command line says so, and normalises the filter and query text it is given (and rule sets) to the configured form, in each of --where, --and, --or, --not.",
 [HI, CF], "every transition of the model of the store at several file locations; random histories; every command under every form and skip setting",
 "tests set and read single options once; what a command does under each setting and what a history leaves behind is untested",
 [SRC + "config.rs", CLI + "config.rs", SRC + "translit.rs", SRC + "cli.rs"],
 [("store", SRC + "config.rs"), ("config command", CLI + "config.rs"), ("normalisation of filters", SRC + "cli.rs")], "MCConfig"),
("C18", "No input or output fault makes a run lose data silently",
 "When an output takes only so many bytes (no space, file size limit), the run ends with exit 2 and what was written is a prefix of the right output; exit 0 means that all output is in place. "
 "A closed pipe ends the run quietly, also over endless input, and a run that reached its limit stops reading. A missing, unreadable or torn input file (cut or corrupt gzip) ends the run with exit 2 after the records before it; no record of a damaged file is invented.",
 [IN, FA], "every amount of room for the outputs of each command on sampled jobs, closed pipes, missing and torn inputs, endless inputs",
 "the tests never run a command against a full disk, a closed pipe or a torn file",
 [SRC + "writer.rs", SRC + "reader.rs", "crates/pica-cli/src/main.rs", CLI],
 [("finish of the writers", SRC + "writer.rs"), ("exit status", "crates/pica-cli/src/main.rs"), ("errors of the readers", SRC + "reader.rs")], "MCOutput MCLost"),
]
P += [
("C19", "Every text is an expression or not as the grammar says, and means what it says",
 "Filter expressions, field and subfield conditions, paths, queries, formats, tag and occurrence patterns, and keep and discard lists accept exactly the texts of their grammars, at any nesting, with blanks allowed only where the grammar has them, and an accepted text has the meaning of its syntax tree: precedence, quantifiers, escapes in quoted strings, lists, ranges. "
 "No text makes a parser panic; a command given a text that is no expression ends with exit 2 and writes nothing.",
 [IN, PR], "every short text over the token alphabets, generated expressions, one to three edits of them, token soup, characters and numbers at their limits",
 "tests parse a list of good and bad examples per production; what lies between is not theirs to decide",
 ["src/matcher", "src/path.rs", "src/query.rs", "src/fmt/parser.rs", "src/primitives/parse.rs", SRC + "cli.rs"],
 [("expression parsers", "src/matcher/*/parser.rs"), ("formats and queries", "src/fmt/parser.rs, src/query.rs"), ("use by commands", SRC + "cli.rs")], "MCSyntax"),
("C20", "Filters are values: combining, negating and writing them out keeps their meaning",
 "A filter, field or subfield condition built from others by and, or, xor and not, by operators, assignments or the builder, matches exactly the records its parts determine. "
 "Written out as text (Display or serde) and read again, any expression built in any history means what it meant, whatever the nesting; a path, query, format or pattern written out denotes the same values.",
 [HI, PR], "every pair and nesting of operators over all forms of conditions, random histories of load, combine, negate, print and build",
 "tests combine two or three literal filters and print a few; histories of operations are not explored",
 ["src/matcher/record.rs", "src/matcher/builder.rs", "src/matcher/field", "src/matcher/subfield", "src/path.rs", "src/query.rs", "src/fmt"],
 [("operators on matchers", "src/matcher/record.rs"), ("builder", "src/matcher/builder.rs"), ("Display and serde", "src/matcher, src/path.rs, src/query.rs")], "MCSyntax MCValues"),
]
P += [
("C21", "A record is its fields, whatever history of library calls led to it",
 "However a record was read, built, copied, reduced (keep, discard, retain), changed through mutable access, serialised or turned into a string record: its written form, SHA-256, hash, equality, owned form and enumerated fields are those of its current fields. "
 "A string record exists exactly if every value is valid UTF-8. The constructors of tags, occurrences, codes, values, subfields, fields and records accept exactly the PICA+ grammar and show what they were given.",
 [HI, IN], "every sequence of two (three at depth) library calls on some records, random longer histories, pairs of records one byte apart, every short text for each constructor",
 "tests call each method once on a fresh record; states reached by several calls, and texts next to the grammar, are sampled by a handful",
 ["src/record.rs", "src/primitives"],
 [("cached bytes", "src/record.rs ByteRecord"), ("constructors", "src/primitives/*.rs")], "MCRecords"),
("C22", "The library reader's answers depend on the bytes of its source alone",
 "Asked for byte or string records in any mixture, a reader answers call by call with the record of the next line, a parse error, or a UTF-8 error naming line and source, and then with nothing, however the source cuts its bytes into pieces or is interrupted. "
 "If the source fails, the lines before the failure are answered and then an I/O error; a line that was cut is never taken for a record.",
 [IN, FA, HI], "every way to cut some short streams, every place to fail, random streams, pieces, interruptions and call sequences, lines at the edges of the read buffer",
 "tests read files from disk in one go; short reads, interruptions, failures and mixed calls do not occur in them",
 ["src/reader.rs", "src/record.rs"],
 [("reader", "src/reader.rs")], "MCReader"),
]
P += [
("C23", "A refused command line changes nothing; any other writes only what it names",
 "An invocation whose options contradict one another, are repeated where they may not be, unknown to the command or without their companion or argument, or have a value out of range, or whose expressions, lists, rule sets or format cannot be read, ends with exit 2, prints nothing on standard output and leaves every file as it was, outputs included. "
 "Every other invocation does its work with exit 0, writes the files it names and no others, and leaves its inputs alone. A command may be shortened as long as that is unambiguous.",
 [IN], "every invocation with one or two options of every command, each option with good and bad values, plus random ones with up to six options",
 "tests give each command a handful of command lines; the pairs of options, and the state of the files after a refusal, are not theirs",
 ["crates/pica-cli/src/cli.rs", "crates/pica-cli/src/main.rs", CLI],
 [("options of the commands", CLI), ("shared options", SRC + "cli.rs"), ("exit status", "crates/pica-cli/src/main.rs")], "MCUsage"),
]
NA = []
