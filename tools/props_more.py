prop("C06", "enum and const yield exactly listed values that fit the rest of the schema",
     "Every value generated for a schema with enum or const equals a listed value (including null, nested and mixed-type values) that also satisfies the other keywords of that schema, and every listed value that does can be generated. "
     "When none does, an error is reported; format is an annotation here and numbers are those a float64 holds.",
     ["inputs"], "every enum/const list of the grammar combined with every sibling keyword, " + DRAWS, UNIT,
     ["enum.go", "const.go"], [("member filtering", "enum.go"), ("const validation", "const.go")], GEN, TRUST, TECH)
prop("C07", "Type keyword, type lists and type inference select the right kinds of value",
     "A value generated for a schema with a type or a list of types has one of these types and satisfies the keywords that apply to it, each listed type can be generated, and a schema without type yields a value that satisfies its keywords; when these are all about one type (such as properties, pattern, minimum or items), the value has that type.",
     ["inputs"], "every type list up to length 3 with keywords of each type, every keyword alone and in pairs, " + DRAWS, UNIT,
     ["multiple_type.go", "parse.go", "null.go", "boolean.go"], [("parseSchemaNode dispatch", "parse.go"), ("inferType", "parse.go")], GEN, TRUST, TECH)
prop("C08", "allOf yields values that satisfy every branch and the parent schema",
     "When the parser accepts a schema with allOf without recording an error, every generated value satisfies all branches and the sibling keywords, for any order and nesting of the branches; when the branches plainly contradict each other an error is recorded.",
     ["inputs"], "every pair and triple of branches of the grammar in every order, with and without sibling keywords and references, " + DRAWS, UNIT,
     ["all_of.go", "merge.go"], [("mergeSchemaNodes", "merge.go")], GEN, TRUST, TECH)
prop("C09", "anyOf and oneOf select valid branches; oneOf matches exactly one",
     "A value generated for anyOf satisfies the parent schema and at least one branch, a value generated for oneOf satisfies the parent schema and exactly one branch, or the output says that the attempts were exhausted. "
     "Every branch that can yield a valid value is eventually chosen.",
     ["inputs"], "every list of up to three branches of the grammar with sibling keywords, " + DRAWS, UNIT,
     ["combination.go", "merge.go"], [("combinationGenerator", "combination.go"), ("oneOfConstraint", "combination.go")], GEN, TRUST, TECH)
prop("C10", "not yields values that do not match the negated schema",
     "When the parser accepts a schema with not without recording an error, every generated value satisfies the sibling keywords and does not match the negated schema, or the output says that the attempts were exhausted.",
     ["inputs"], "every negated keyword of the grammar under every base schema, several not in allOf, " + DRAWS, UNIT,
     ["not.go", "constraint.go"], [("parseNot", "not.go"), ("multiConstraint", "constraint.go")], GEN, TRUST, TECH)
prop("C11", "if/then/else is honoured by every generated value",
     "A value generated for a schema with if, then and else satisfies the parent schema, and also then when it matches if and else when it does not, or the output says that the attempts were exhausted.",
     ["inputs"], "every if/then/else combination of the grammar, including those inside allOf, " + DRAWS, UNIT,
     ["if.go"], [("multipleIfConstraints", "if.go")], GEN, TRUST, TECH)
prop("C12", "Local references behave like the schema they point to",
     "A schema using $ref to $defs, definitions, properties, array positions or $id generates exactly what the schema with the target written in place generates, and a reference that cannot be resolved is reported as an error.",
     ["inputs"], "every reference form of the grammar in every position, " + DRAWS, UNIT,
     ["reference.go", "reference_hander.go", "reference_path.go", "document.go"], [("path resolution", "reference_path.go"), ("referenceGenerator", "reference.go")], GEN, TRUST, TECH)
prop("C13", "Recursive schemas terminate within the configured limits",
     "Parsing and generating a recursive schema always terminates, never nests references deeper than the configured reference depth, does the minimum once the generation step limit is passed and stops at the cutoff. ",
     ["inputs", "configurations"], "every recursion shape of the grammar under every limit setting, " + DRAWS, UNIT,
     ["reference.go", "generator.go", "object.go", "array.go"], [("MaximumReferenceDepth", "reference.go"), ("ShouldCutoff", "generator.go")], GEN, TRUST, TECH)
prop("C14", "Retry budgets are respected and giving up is visible in the output",
     "A generator that cannot satisfy a oneOf, if, not or uniqueItems constraint retries at most the configured number of times and then returns a string that says so; unless the generation cutoff was passed it never returns a value that silently violates the constraint, and it never loops forever.",
     ["configurations", "inputs"], "every budget of a list from 1 to 25 and the default on every unsatisfiable or partially satisfiable constraint of the grammar, " + DRAWS, UNIT,
     ["constraint.go", "combination.go", "if.go", "array.go", "generator.go"], [("Apply loops", "constraint.go, combination.go, if.go"), ("ScaledRetryBudget", "generator.go")], GEN, TRUST, TECH)
prop("C15", "Parsing never panics and reports what it cannot honour",
     "Parsing any JSON document terminates without a panic; malformed JSON, wrongly typed keywords that matter for the values, and the unsupported keywords dependentRequired and dependentSchemas lead to a returned or recorded error.",
     ["inputs"], "every schema of bounded size over all keywords with every kind of JSON value", UNIT,
     ["parse.go", "json.go", "error.go"], [("ParseSchema", "parse.go"), ("assertNoUnsupported", "assert.go")], ["error and Metadata.Errors of ParseSchema"], TRUST, TECH)
prop("C16", "Generating never panics and always yields serialisable JSON",
     "For every generator the parser returns, with or without errors, and every option setting (negative and contradictory ones included), Generate returns a value that encoding/json can serialise and never panics. ",
     ["inputs", "configurations"], "every schema of bounded size over all keywords, every option preset, " + DRAWS, UNIT,
     ["generator.go", "root.go"], [("RootGenerator.Generate", "root.go")], GEN, TRUST, TECH)
prop("C17", "Generation is independent of history and leaves its inputs alone",
     "A generator gives the same outcome for the same draws however often and with whatever options it was used before, does not modify the options or schema bytes it was given, and shares no mutable state between the values it returns. ",
     ["histories"], "every history of up to three calls over the operation alphabet (parse, generate with option presets, mutate a returned value)", "The tests call each generator in a loop but never compare outcomes across histories.",
     ["root.go", "generator.go", "reference.go", "const.go", "enum.go"], [("withGeneratorOptionsDefaults", "generator.go")], GEN, TRUST, TECH)
prop("C18", "One generator can be used from several goroutines",
     "Concurrent Generate calls on one parsed generator, each with its own options, give each caller an outcome it could also get alone, and do not race on shared data. ",
     ["schedules"], "every interleaving of two or three concurrent Generate calls up to the preemption bound, at every draw", "The tests are sequential.",
     ["root.go", "generator.go", "object.go"], [("per-call options copy", "generator.go")], GEN, TRUST, "systematic exploration of interleavings under a cooperative scheduler with preemption bound, plus a race-detector pass")
prop("C19", "File references never read outside the allowed locations",
     "Resolving references reads a file only when file fetching is enabled and the file, after resolving symbolic links, lies below one of the explicitly allowed paths or, when no such paths are given, below the working directory unless outside access is allowed. "
     "A refused file is reported as an error and nothing of its content reaches the output.",
     ["configurations", "inputs"], "every combination of fetch options, reference spelling, link layout and target location of the grammar", "The tests resolve a few files inside the working directory only.",
     ["fetchers.go", "document.go"], [("isOutsideOfAllowedPaths", "fetchers.go")], ["files opened (inotify)", "generated values", "errors"], TRUST, "exhaustive enumeration of configurations against the real resolver with file opens recorded by inotify")
prop("C20", "HTTP references contact only allowed hosts over allowed schemes",
     "Resolving references opens a network connection only when HTTP fetching is enabled, the host is on the allow list (when given), and the scheme is https unless insecure access is allowed; this holds for redirects, too. "
     "A refused or failing fetch is reported as an error.",
     ["configurations", "inputs", "fault_sequences"], "every combination of fetch options, URL spelling, server answer and redirect target of the grammar", "The tests use one local server and one configuration.",
     ["fetchers.go"], [("httpFetcher", "fetchers.go")], ["requests that reach a server", "errors", "generated values"], TRUST, "exhaustive enumeration of configurations and server answers against the real resolver with recording servers on the loopback network")
prop("C21", "References across documents resolve relative to their own document",
     "A reference in a fetched document is resolved relative to that document, whatever path of references led there; schemas spread over several documents, also mutually recursive ones, generate what the single-document schema generates.",
     ["inputs"], "every layout of up to three documents and directories of the grammar, " + DRAWS, UNIT,
     ["document.go", "reference_path.go"], [("documentResolver", "document.go")], GEN, TRUST, TECH)
prop("C22", "Parser and generator options take effect as documented",
     "The default bounds, reference depth, step limits, regular expression options and parse depth given as options are the ones used, zero values mean the documented defaults, and one option never changes what another one controls.",
     ["configurations"], "every option alone and every pair of options, at boundary values", UNIT,
     ["generator.go", "parse.go"], [("withGeneratorOptionsDefaults", "generator.go"), ("withDefaultParseOptions", "parse.go")], GEN, TRUST, TECH)
prop("C23", "Generators can produce every alternative the schema allows",
     "For choices a user can observe (enum members, union types, anyOf/oneOf branches, boolean values, optional properties present and absent, numbers of properties, array lengths from the tuple on, small integer ranges, small pattern languages) every allowed alternative within the default bounds can be generated.",
     ["inputs"], DRAWS + " of the schemas of the grammar", "A test cannot show that something can never be generated.",
     ["rand/rand.go", "object.go", "array.go", "multiple_type.go", "combination.go"], [("RandomInt", "rand/rand.go")], GEN, TRUST, TECH)
prop("C24", "The command line tool honours its flags and exit codes",
     "The CLI prints exactly one JSON document valid against the schema given by file or standard input, formats and writes it to the requested place, passes its flags to the library, and fails with a non-zero exit code and a message when the schema cannot be read or parsed.",
     ["configurations", "inputs"], "every combination of input source, output target, flags and schema outcome", "There are no tests for the CLI.",
     ["cli/cli.go"], [("main", "cli/cli.go")], ["stdout, stderr, exit code, output file"], TRUST, "exhaustive enumeration of invocations of the built command")
prop("C25", "A negated format excludes exactly the strings of that format",
     "For a schema with a negated format no generated string is of that format, as its defining document describes it, and every other string the rest of the schema allows can still be generated.",
     ["inputs"], "every string built from the parts and alphabets of each format up to a length and every edit of sample strings, " + DRAWS, "The tests negate no format.",
     ["internal/jsonschema/formats.go", "constraint.go", "not.go"], [("FormatValidators", "internal/jsonschema/formats.go"), ("AddNotMatchingFormatConstraint", "constraint.go")], GEN, TRUST, TECH)
prop("C26", "A schema means the same however it is written and handed over",
     "White space, string escapes, the order of members and of set-like lists, the spelling of numbers, annotations, unknown keywords (including known ones in another letter case), neutral keywords, the names chosen for properties and definitions, "
     "and the entry point, file name, folder and working directory used to hand a schema over make no difference to what is generated from it.",
     ["inputs"], "every rewriting of the grammar applied to every sample schema, alone and (names, layouts) in combination, " + DRAWS, "The tests write each schema in one way.",
     ["json.go", "parse.go", "schema.go", "fetchers.go"], [("UnmarshalJSON", "json.go"), ("ParseSchemaFile", "parse.go"), ("ParseSchemaNode", "schema.go")], GEN, TRUST, TECH)
prop("C27", "A schema means the same on its own and inside combinators that add nothing",
     "A schema wrapped in allOf, anyOf or oneOf with no other branch or with branches that add nothing, in a double negation, in a condition that always or never holds, in a container of one value or behind a reference, put next to such combinators, "
     "or split over several branches of allOf yields valid values of the schema, and the same ones.",
     ["inputs"], "every wrapping and split of the grammar applied to every sample schema of up to two (thorough: three) groups of keywords, " + DRAWS, "The tests compare no two schemas that mean the same.",
     ["merge.go", "all_of.go", "combination.go", "not.go", "if.go"], [("mergeSchemaNodes", "merge.go"), ("parseCombination", "combination.go"), ("parseNot", "not.go")], GEN, TRUST, TECH)
