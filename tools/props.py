#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, tech):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, tech=tech))

DRAWS = "every sequence of random draws and every map iteration order"
UNIT = "The generative tests sample about 100 random seeds on a few fixed schema files; a wrong value that needs one specific draw sequence, bound combination or map order is not reached."
GEN = ["chaff.RootGenerator.Generate return value, serialised with encoding/json"]
TRUST = ("Trusted: the reference JSON Schema semantics in harness/oracle.go (every violation is cross-checked with the santhosh validator), "
         "the overlay of math/rand, map iteration and os.OpenFile. Bounds and caps are in the evidence file.")
TECH = "stateless exhaustive exploration of the real generator's choice tree (controlled randomness and map order), deviation-bounded above the cap"

prop("C01", "Numbers respect bounds, exclusive bounds, multipleOf and integer type",
     "For every schema of type number or integer whose minimum, maximum, exclusiveMinimum, exclusiveMaximum and multipleOf (decimal numbers of up to 15 significant digits) the parser accepts, every generated value satisfies all of these keywords and is integral when the type is integer (multiples beyond 2^53, which a float64 can not tell apart, are not judged against multipleOf). "
     "Contradictory combinations are reported as errors, and satisfiable combinations with at most one lower and one upper bound are accepted.",
     ["inputs"], "every combination of bounds and multipleOf of the grammar, and every outcome of the random draw (complete for small ranges, all boundary draws for large ones)", UNIT,
     ["number.go", "internal/util/util.go", "rand/rand.go"], [("bound normalisation and rounding", "number.go"), ("Round", "internal/util/util.go")], GEN, TRUST, TECH)
prop("C02", "Strings respect pattern and length limits",
     "Every string generated for a schema with a pattern (Go regular expression syntax, with anchors and word boundaries only where every match has them) matches that pattern, and every string generated for a schema with minLength and/or maxLength has a length within them; this holds in every position a string schema can occur, including property names generated from patternProperties. "
     "Contradictory lengths are reported as errors.",
     ["inputs"], "every pattern of the grammar of literals, classes, groups, alternations, anchors and repetitions, every length pair, " + DRAWS, UNIT,
     ["string.go", "regex.go", "internal/regen"], [("regex generator", "internal/regen"), ("length loop", "string.go")], GEN, TRUST, TECH)
prop("C03", "Strings respect supported formats",
     "Every string generated for format date-time, time, date, duration, email, idn-email, hostname, idn-hostname, ipv4, ipv6, uuid, uri, uri-reference, iri or iri-reference is a valid instance of that format; other formats yield a string that says the format is unsupported.",
     ["inputs"], "every format in every schema position, " + DRAWS, UNIT, ["string.go", "internal/jsonschema/formats.go"], [("format generators", "string.go")], GEN, TRUST, TECH)
prop("C04", "Objects respect properties, required, patterns, additional and size limits",
     "Every object generated for an object schema contains all required properties, holds only values (declared, matching a pattern, or additional) that satisfy the subschema for their name, adds no undeclared name when additional properties are forbidden, and has between minProperties and maxProperties members, whatever the generator's default sizes. "
     "Contradictory object schemas are reported as errors and satisfiable ones are accepted and lead to a valid object.",
     ["inputs"], "every combination of properties, patternProperties, additionalProperties, required, minProperties and maxProperties of the grammar, " + DRAWS, UNIT,
     ["object.go"], [("objectGenerator.Generate", "object.go"), ("parseObject bound checks", "object.go")], GEN, TRUST, TECH)
prop("C05", "Arrays respect items, tuples, contains, uniqueness and size limits",
     "Every array generated for an array schema satisfies items, prefixItems (or tuple items with additionalItems), unevaluatedItems, minItems, maxItems and contains with minContains, and has no duplicates under uniqueItems, whatever the generator's default sizes; when unique members run out, the output says so instead of repeating one. "
     "Contradictory size limits are reported as errors and satisfiable supported combinations are accepted.",
     ["inputs"], "every combination of the array keywords of the grammar, " + DRAWS, UNIT,
     ["array.go", "json.go"], [("arrayGenerator.Generate", "array.go"), ("parseArray bound checks", "array.go")], GEN, TRUST, TECH)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

CLAIMED = [l.strip() for l in open(os.path.join(V, "tools", "claimed.txt")) if l.strip()]
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
man = {"version": 1,
       "setup_cmd": "bash tools/setup.sh",
       "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks build /repo's working tree with 'go build -overlay', which replaces math/rand, internal/runtime/maps and os/file.go of the standard library with instrumented copies and adds the harness as a virtual package.", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": "bash tools/check.sh %s quick" % p["id"],
                   "thorough_cmd": "bash tools/check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"],
                   "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] in CLAIMED],
       "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in P if p["id"] not in CLAIMED],
       "notes": "All checks run the real code of /repo; see DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
