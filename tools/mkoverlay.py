#!/usr/bin/env python3
"""Generate the build overlay: patched copies of a few *standard library* files
(so that every source of nondeterminism the library can reach is owned by the
explorer) plus the harness sources mapped into a virtual package of /repo.

usage: mkoverlay.py GOROOT REPO HARNESS_DIR OUT_DIR
Files are rewritten only when their content changes, so the Go build cache stays warm.
"""
import json, os, re, sys

goroot, repo, harness, out = sys.argv[1:5]
os.makedirs(out, exist_ok=True)
replace = {}


def put(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def patch(rel, edits, append=""):
    src = os.path.join(goroot, "src", rel)
    with open(src) as f:
        text = f.read()
    for old, new in edits:
        if text.count(old) != 1:
            sys.exit(f"mkoverlay: {rel}: anchor {old!r} found {text.count(old)} times")
        text = text.replace(old, new)
    text += append
    dst = os.path.join(out, rel.replace("/", "__"))
    put(dst, text)
    replace[src] = dst


def after(sig, body):
    return (sig, sig + "\n" + body)


# --- math/rand: every draw of every *Rand becomes a choice point when the hook is set.
H = "\tif VerifHook != nil { if v, ok := VerifHook(r.src, %s, uint64(%s)); ok { return %s(v) } }"
patch(
    "math/rand/rand.go",
    [
        ("func (r *Rand) Int63() int64 { return r.src.Int63() }",
         "func (r *Rand) Int63() int64 {\n" + H % ("VerifBits", "63", "int64") + "\n\treturn r.src.Int63()\n}"),
        ("func (r *Rand) Uint32() uint32 { return uint32(r.Int63() >> 31) }",
         "func (r *Rand) Uint32() uint32 {\n" + H % ("VerifBits", "32", "uint32") + "\n\treturn uint32(r.Int63() >> 31)\n}"),
        after("func (r *Rand) Uint64() uint64 {", H % ("VerifBits", "64", "uint64")),
        ("func (r *Rand) Int31() int32 { return int32(r.Int63() >> 32) }",
         "func (r *Rand) Int31() int32 {\n" + H % ("VerifBits", "31", "int32") + "\n\treturn int32(r.Int63() >> 32)\n}"),
        after("func (r *Rand) Int() int {", H % ("VerifBits", "63", "int")),
        ("\t\tpanic(\"invalid argument to Int63n\")\n\t}",
         "\t\tpanic(\"invalid argument to Int63n\")\n\t}\n" + H % ("VerifBounded", "n", "int64")),
        ("\t\tpanic(\"invalid argument to Int31n\")\n\t}",
         "\t\tpanic(\"invalid argument to Int31n\")\n\t}\n" + H % ("VerifBounded", "n", "int32")),
        after("func (r *Rand) int31n(n int32) int32 {", H % ("VerifBounded", "n", "int32")),
        ("\t\tpanic(\"invalid argument to Intn\")\n\t}",
         "\t\tpanic(\"invalid argument to Intn\")\n\t}\n" + H % ("VerifBounded", "n", "int")),
        after("func (r *Rand) Float64() float64 {",
              "\tif VerifHook != nil { if v, ok := VerifHook(r.src, VerifFloat, 53); ok { return float64(v) / (1 << 53) } }"),
        after("func (r *Rand) Float32() float32 {",
              "\tif VerifHook != nil { if v, ok := VerifHook(r.src, VerifFloat, 24); ok { return float32(v) / (1 << 24) } }"),
    ],
    """
// Added by the verification overlay. Nil: original behaviour.
const (
	VerifBounded = iota // value in [0,n)
	VerifBits           // value of n random bits
	VerifFloat          // numerator over 1<<n
)

var VerifHook func(src Source, kind int, n uint64) (uint64, bool)
""",
)

# --- map iteration order: a fixed / chosen rotation instead of a random one.
patch(
    "internal/runtime/maps/table.go",
    [
        ("\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n",
         "\tif verifMapMode != 0 {\n\t\tit.entryOffset, it.dirOffset = verifMapRot+verifMapStep*verifMapCount, 0\n\t\tverifMapCount++\n\t} else {\n"
         "\t\tit.entryOffset = rand()\n\t\tit.dirOffset = rand()\n\t}\n"),
    ],
    """
// Added by the verification overlay. Mode 0: original behaviour.
var verifMapMode uint64
var verifMapRot, verifMapStep, verifMapCount uint64
""",
)

# --- os: record every file opened by name.
patch(
    "os/file.go",
    [after("func OpenFile(name string, flag int, perm FileMode) (*File, error) {",
           "\tif VerifOpenHook != nil { VerifOpenHook(name, flag) }")],
    """
// Added by the verification overlay. Nil: original behaviour.
var VerifOpenHook func(name string, flag int)
""",
)

for fn in sorted(os.listdir(harness)):
    if fn.endswith(".go") or fn.endswith(".s"):
        replace[os.path.join(repo, "zz_verif_harness", fn)] = os.path.join(harness, fn)

# the command line tool with its randomness under control (see cli_hook/hook.go)
replace[os.path.join(repo, "cli", "zz_verif_hook.go")] = os.path.join(harness, "cli_hook", "hook.go")

put(os.path.join(out, "overlay.json"), json.dumps({"Replace": replace}, indent=1, sort_keys=True))
