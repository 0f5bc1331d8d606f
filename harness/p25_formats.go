package main

// C25: a negated format excludes exactly the strings of that format. For each format every string built from
// a small alphabet or a list of parts up to a length, and every edit of sample strings, is offered to the
// generator (const or enum next to "not": {"format": ...}); a string of the format must never come out, any
// other must.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	sj "github.com/santhosh-tekuri/jsonschema/v6"
)

// ---- grammars, from the documents JSON Schema names

const (
	unresRe  = `[A-Za-z0-9._~-]`
	pctRe    = `%[0-9A-Fa-f]{2}`
	subRe    = `[!$&'()*+,;=]`
	pcharRe  = `(?:` + unresRe + `|` + pctRe + `|` + subRe + `|[:@])`
	ipv4Re   = `(?:(?:25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)(?:\.(?:25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)){3})`
	labelRe  = `[A-Za-z0-9](?:[A-Za-z0-9-]{0,61}[A-Za-z0-9])?`
	h16Re    = `[0-9A-Fa-f]{1,4}`
	ls32Re   = `(?:` + h16Re + `:` + h16Re + `|` + ipv4Re + `)`
	atextRe  = "[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]"
	durTime  = `T(?:\d+H(?:\d+M(?:\d+S)?)?|\d+M(?:\d+S)?|\d+S)`
	durDate  = `(?:\d+Y(?:\d+M(?:\d+D)?)?|\d+M(?:\d+D)?|\d+D)`
	varRe    = `(?:[A-Za-z0-9_]|` + pctRe + `)(?:\.?(?:[A-Za-z0-9_]|` + pctRe + `))*(?::[1-9]\d{0,3}|\*)?`
	ucschars = `\x{a0}-\x{d7ff}\x{f900}-\x{fdcf}\x{fdf0}-\x{ffef}`
)

func ipv6Re() string {
	g := h16Re + ":"
	alt := []string{
		`(?:` + g + `){6}` + ls32Re,
		`::(?:` + g + `){5}` + ls32Re,
		`(?:` + h16Re + `)?::(?:` + g + `){4}` + ls32Re,
	}
	for n := 1; n <= 3; n++ {
		alt = append(alt, fmt.Sprintf(`(?:(?:%s){0,%d}%s)?::(?:%s){%d}%s`, g, n, h16Re, g, 4-n, ls32Re))
	}
	alt = append(alt, fmt.Sprintf(`(?:(?:%s){0,4}%s)?::%s`, g, h16Re, ls32Re))
	alt = append(alt, fmt.Sprintf(`(?:(?:%s){0,5}%s)?::%s`, g, h16Re, h16Re))
	alt = append(alt, fmt.Sprintf(`(?:(?:%s){0,6}%s)?::`, g, h16Re))
	return `(?:` + strings.Join(alt, "|") + `)`
}

func uriRe(iri bool) (abs, ref string) {
	pchar := pcharRe
	unres := unresRe
	if iri {
		pchar = `(?:` + pcharRe + `|[` + ucschars + `])`
		unres = `[A-Za-z0-9._~` + ucschars + `-]`
	}
	host := `(?:\[` + ipv6Re() + `\]|(?:` + unres + `|` + pctRe + `|` + subRe + `)*)`
	auth := `(?:(?:` + unres + `|` + pctRe + `|` + subRe + `|:)*@)?` + host + `(?::\d*)?`
	tail := `(?:\?(?:` + pchar + `|[/?])*)?(?:#(?:` + pchar + `|[/?])*)?`
	abempty := `(?:/` + pchar + `*)*`
	absolute := `/(?:` + pchar + `+` + abempty + `)?`
	rootless := pchar + `+` + abempty
	noscheme := `(?:` + strings.Replace(pchar, `[:@]`, `@`, 1) + `)+` + abempty
	abs = `[A-Za-z][A-Za-z0-9+.-]*:(?://` + auth + abempty + `|` + absolute + `|` + rootless + `|)` + tail
	ref = `(?:` + abs + `|(?://` + auth + abempty + `|` + absolute + `|` + noscheme + `|)` + tail + `)`
	return
}

var fmtRe = func() map[string]*regexp.Regexp {
	uri, uriRef := uriRe(false)
	iri, iriRef := uriRe(true)
	m := map[string]string{
		"time":                  `(\d\d):(\d\d):(\d\d)(?:\.\d+)?(?:[zZ]|([+-])(\d\d):(\d\d))`,
		"duration":              `P(?:\d+W|` + durDate + `(?:` + durTime + `)?|` + durTime + `)`,
		"hostname":              labelRe + `(?:\.` + labelRe + `)*`,
		"ipv4":                  ipv4Re,
		"ipv6":                  ipv6Re(),
		"uuid":                  `[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}`,
		"json-pointer":          `(?:/(?:[^~/]|~[01])*)*`,
		"relative-json-pointer": `(?:0|[1-9]\d*)(?:#|(?:/(?:[^~/]|~[01])*)*)`,
		"uri":                   uri,
		"uri-reference":         uriRef,
		"iri":                   iri,
		"iri-reference":         iriRef,
		"uri-template":          `(?:[\x21\x23\x24\x26\x28-\x3b\x3d\x3f-\x5b\x5d\x5f\x61-\x7a\x7e` + ucschars + `]|` + pctRe + `|\{[+#./;?&=,!@|]?` + varRe + `(?:,` + varRe + `)*\})*`,
	}
	out := map[string]*regexp.Regexp{}
	for k, v := range m {
		out[k] = regexp.MustCompile(`^(?:` + v + `)$`)
	}
	return out
}()

var fmtAlias = map[string]string{"ip-address": "ipv4", "uriref": "uri-reference"}

var monthDays = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

var reDateS = regexp.MustCompile(`^\d{4}-\d\d-\d\d$`)

// fmtClear: formats whose grammar leaves nothing open, also where the third-party validator takes "+1" for a number.
var fmtClear = map[string]bool{"date": true, "time": true, "date-time": true, "ipv4": true, "uuid": true, "json-pointer": true, "relative-json-pointer": true}

// fmtGrammar decides by the grammar alone.
func fmtGrammar(f, s string) bool {
	switch f {
	case "date":
		if !reDateS.MatchString(s) {
			return false
		}
		y, _ := strconv.Atoi(s[:4])
		m, _ := strconv.Atoi(s[5:7])
		d, _ := strconv.Atoi(s[8:])
		if m < 1 || m > 12 || d < 1 {
			return false
		}
		n := monthDays[m-1]
		if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
			n++
		}
		return d <= n
	case "time":
		p := fmtRe["time"].FindStringSubmatch(s)
		if p == nil {
			return false
		}
		num := func(i int) int { n, _ := strconv.Atoi(p[i]); return n }
		h, m, sec := num(1), num(2), num(3)
		if h > 23 || m > 59 || sec > 60 || num(5) > 23 || num(6) > 59 {
			return false
		}
		if sec < 60 {
			return true
		}
		off := num(5)*60 + num(6)
		if p[4] == "+" {
			off = -off
		}
		return (h*60+m+off+2880)%1440 == 23*60+59 // a leap second is the last one of a day in UTC
	case "date-time":
		return len(s) > 11 && (s[10] == 'T' || s[10] == 't') && fmtGrammar("date", s[:10]) && fmtGrammar("time", s[11:])
	case "period":
		a, b, ok := strings.Cut(s, "/")
		d := func(x string) bool { return fmtGrammar("date-time", x) }
		u := func(x string) bool { return fmtGrammar("duration", x) }
		return ok && (d(a) && (d(b) || u(b)) || u(a) && d(b))
	case "hostname":
		return len(s) <= 253 && fmtRe["hostname"].MatchString(s)
	case "email":
		at := strings.LastIndexByte(s, '@')
		if at < 1 || at > 64 || len(s) > 254 || !regexp.MustCompile(`^`+atextRe+`+(\.`+atextRe+`+)*$`).MatchString(s[:at]) {
			return false
		}
		d := s[at+1:]
		if strings.HasPrefix(d, "[IPv6:") && strings.HasSuffix(d, "]") {
			return fmtGrammar("ipv6", d[6:len(d)-1])
		}
		if strings.HasPrefix(d, "[") && strings.HasSuffix(d, "]") {
			return fmtGrammar("ipv4", d[1:len(d)-1])
		}
		return fmtGrammar("hostname", d)
	case "regex":
		_, err := regexp.Compile(s)
		return err == nil
	}
	return fmtRe[f].MatchString(s)
}

// fmtJudge: 1 the string is of the format, 0 it is not, -1 the grammar and the third-party validator differ.
func fmtJudge(f, s string, third map[string]*sj.Schema) int {
	if a := fmtAlias[f]; a != "" {
		f = a
	}
	mine := fmtGrammar(f, s)
	if f == "regex" {
		_, err := regexp.CompilePOSIX(s)
		if (err == nil) != mine {
			return -1
		}
	} else if !fmtClear[f] && (third[f].Validate(s) == nil) != mine {
		return -1
	}
	if mine {
		return 1
	}
	return 0
}

func fmtThird() map[string]*sj.Schema {
	out := map[string]*sj.Schema{}
	for f := range fmtBases {
		if fmtAlias[f] != "" || f == "regex" {
			continue
		}
		c := sj.NewCompiler()
		c.AssertFormat()
		mustNil(c.AddResource("mem://f.json", map[string]interface{}{"format": f}))
		out[f] = c.MustCompile("mem://f.json")
	}
	return out
}

// ---- strings

type fmtBase struct {
	samples  []string // each edit of these
	edits    string   // characters edits use
	parts    []string // each sequence of these up to n parts
	n        int
	products [][]string // each combination
}

func numbers(from, to, width int) []string {
	var out []string
	for i := from; i <= to; i++ {
		out = append(out, fmt.Sprintf("%0*d", width, i))
	}
	return out
}

var fmtBases = map[string]fmtBase{
	"date": {samples: []string{"2024-02-29", "1999-12-31"}, edits: "0123 9-/+:TZ", parts: []string{"2024", "-", "02", "9", ""}, n: 5,
		products: [][]string{{"0000", "0004", "1900", "2000", "2023", "2024", "9999"}, {"-"}, numbers(0, 13, 2), {"-"}, numbers(0, 32, 2)}},
	"time": {samples: []string{"12:30:45Z", "23:59:60.5z", "00:00:00.123+12:30", "08:09:10-23:59"}, edits: "0269:+-.,zZtT ", parts: []string{"12", ":", "30", "Z", "+", ".5"}, n: 5,
		products: [][]string{{"00", "12", "22", "23", "24"}, {":"}, {"00", "29", "59", "60"}, {":"}, {"00", "59", "60", "61"}, {"", ".0", ".123456789", "."}, {"", "Z", "z", "+00:00", "-00:00", "+00:30", "-00:30", "+01:00", "-01:00", "+23:59", "-23:59", "-23:30", "+24:00", "+00:60", "+0000", "+01"}}},
	"date-time": {samples: []string{"2024-02-29T12:30:45Z", "1990-12-31t23:59:60.25-00:00", "2023-12-31T15:59:60-08:00"}, edits: "0269:+-.zZtT ",
		products: [][]string{{"2024-02-29", "2023-02-29", "2023-04-31", "0000-01-01", "2023-1-01"}, {"T", "t", " ", "", "TT"}, {"00:00:00", "23:59:60", "22:59:60", "24:00:00"}, {"", ".1", ".", ",1"}, {"", "Z", "z", "+00:00", "-01:00", "+24:00", "Z "}}},
	"duration": {samples: []string{"P1Y2M3DT4H5M6S", "P12W", "PT36H"}, edits: "0P1YMDWTHS.- ", parts: []string{"P", "T", "1", "Y", "M", "D", "W", "H", "S"}, n: 5,
		products: [][]string{{"P", ""}, {"", "1Y"}, {"", "10M"}, {"", "2W"}, {"", "0D"}, {"", "T"}, {"", "1H"}, {"", "1M"}, {"", "1S", "1.5S", "S"}}},
	"period": {samples: []string{"2024-02-29T12:30:45Z/P1D", "P1W/2024-02-29T12:30:45Z"}, edits: "01P/TZ ",
		products: [][]string{{"", "2024-02-29T12:30:45Z", "2024-02-30T12:30:45Z", "P1D", "P", "PT1H"}, {"/", "", "//", "-"}, {"", "2025-02-28T12:30:45+01:00", "2025-02-29T12:30:45Z", "P1D", "P1DT", "P1Y2M"}, {"", "/", "/P1D"}}},
	"hostname": {samples: []string{"www.example-1.com", "a.b-c.d", strings.Repeat("a", 63), strings.Repeat("a", 64), "x." + strings.Repeat("b", 63) + ".y", "x." + strings.Repeat("b", 64) + ".y",
		strings.Repeat(strings.Repeat("c", 49)+".", 5) + "abc", strings.Repeat(strings.Repeat("c", 49)+".", 5) + "abcd", "xn--nxasmq6b"}, edits: "aZ09-._ @", parts: []string{"a", "-", ".", "1", "_"}, n: 6},
	"email": {samples: []string{"joe.b+x@mail.example.com", "a@[127.0.0.1]", "a@[IPv6:::1]", strings.Repeat("l", 64) + "@a.b", strings.Repeat("l", 65) + "@a.b",
		"l@" + strings.Repeat(strings.Repeat("c", 49)+".", 5) + "a", "l@" + strings.Repeat(strings.Repeat("c", 49)+".", 5) + "ab", "abcd@" + strings.Repeat(strings.Repeat("c", 49)+".", 5) + "a"}, edits: "a1.@-_[]:!~ ", parts: []string{"a", ".", "@", "-", "1", "!"}, n: 6},
	"ipv4": {samples: []string{"127.0.0.1", "255.255.255.255"}, edits: "0125679.:x -+", parts: []string{"1", ".", "25", "6", "0"}, n: 7,
		products: [][]string{{"0", "00", "01", "9", "99", "255", "256", "300", "-1", "+1", "", "1e1", "0x1"}, {"."}, {"0", "255", "256", "1"}, {"."}, {"0", "00", "249", "+0"}, {".", "", ".."}, {"1", "001", "254", "a", ""}, {"", ".", ".1", "/8"}}},
	"ipv6": {samples: []string{"2001:db8:85a3:0:0:8a2e:370:7334", "::1", "fe80::1:2", "::ffff:192.168.0.1", "1::"}, edits: "019afgF:.%/", parts: []string{"1", ":", "::", "ab", "1.2.3.4"}, n: 6,
		products: [][]string{{"", "::", "1:", "1:2:", "1:2:3:", "1:2:3:4:", "1:2:3:4:5:", "1:2:3:4:5:6:", "1:2:3:4:5:6:7:", "1:2:3:4:5:6:7:8:"}, {"", ":", "9", "abcd", "12345", "00001"}, {"", ":", "::", "::1", ":2", ":1:2", "::1:2:3", "::1:2:3:4:5:6"}, {"", ":1.2.3.4", "1.2.3.4", "%eth0", "/64"}}},
	"uuid": {samples: []string{"2EB8AA08-AA98-11EA-B4AA-73B441D16380", "00000000-0000-0000-0000-000000000000"}, edits: "09afgAFG-{} ",
		products: [][]string{{"", "1234567", "12345678", "123456789"}, {"-", ""}, {"abc", "abcd", "abcde"}, {"-", ""}, {"1234"}, {"-"}, {"ABCD", "ABC", "ABCDE"}, {"-", ""}, {"12345678901", "123456789012", "1234567890123", "g23456789012"}}},
	"json-pointer":          {samples: []string{"/a/b~0c~1/0", ""}, edits: "/~01a#%2 ", parts: []string{"/", "~", "0", "1", "2", "a", "#"}, n: 5},
	"relative-json-pointer": {samples: []string{"12/a~0/b", "0#", "1"}, edits: "/~012#a-+ ", parts: []string{"0", "1", "2", "#", "/", "~", "a", "-"}, n: 5},
	"uri": {samples: []string{"http://user:pw@example.com:80/a/b?c=d#e", "urn:isbn:0451450523", "mailto:a@b.c", "http://[::1]/", "file:///etc/x"}, edits: "a1:/?#[]@%2 \\<>\"^{|}`", parts: []string{"a", ":", "/", "?", "#", "1", "%41", "%"}, n: 5,
		products: [][]string{{"http", "a+b", "1a", "", "h-p.x"}, {":", ""}, {"//", "/", ""}, {"", "h", "h.x:80", "[::1]", "[1]", "u@h", "h:x", "::1"}, {"", "/p", "/p/q r", "//"}, {"", "?q", "?a b", "?%zz"}, {"", "#f", "#%41", "#f#g"}}},
	"uri-reference": {samples: []string{"../a/b?c=d#e", "//example.com/x", "http://a/", "#f"}, edits: "a1:/?#[]@%2 \\<>\"^{|}`", parts: []string{"a", ":", "/", "?", "#", "1", "%41", "\\"}, n: 5},
	"iri":           {samples: []string{"http://b\u00fccher.example/\u00e4?\u00f6#\u00fc", "urn:x:\u65e5"}, edits: "a:/?#@%\u00e9 \\<", parts: []string{"a", ":", "/", "\u00e9", "#", " "}, n: 5},
	"iri-reference": {samples: []string{"\u00e4/b#c", "//\u65e5\u672c/x"}, edits: "a:/?#@%\u00e9 \\<", parts: []string{"a", ":", "/", "\u00e9", "#", "\\"}, n: 5},
	"uri-template":  {samples: []string{"http://a.b/{x}/{y}", "/{a,b}{?c}"}, edits: "ax{}/,?%2 ", parts: []string{"a", "{", "}", "/", "{x}", "?"}, n: 5},
	"regex":         {samples: []string{"^a(b|c)*[x-z]{2,3}$"}, edits: "ab()[]*+?{}|^-2,", parts: []string{"a", "(", ")", "[", "]", "*", "+", "|"}, n: 5},
}

func init() {
	for a, f := range map[string]string{"ip-address": "ipv4", "uriref": "uri-reference"} {
		b := fmtBases[f]
		b.parts = nil
		fmtBases[a] = b
	}
}

func (b fmtBase) strings(th bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if utf8.ValidString(s) && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	edit := func(s string) []string {
		r := []rune(s)
		if len(r) > 60 { // long runs of one character: ends and a few places
			var l []string
			for _, ch := range b.edits {
				l = append(l, string(ch)+s, s+string(ch), string(r[:40])+string(ch)+string(r[41:]))
			}
			return append(l, s[1:], string(r[:len(r)-1]))
		}
		var l []string
		for i := range r {
			l = append(l, string(r[:i])+string(r[i+1:]))
			for _, ch := range b.edits {
				l = append(l, string(r[:i])+string(ch)+string(r[i+1:]), string(r[:i])+string(ch)+string(r[i:]))
			}
		}
		for _, ch := range b.edits {
			l = append(l, s+string(ch))
		}
		return l
	}
	for _, s := range b.samples {
		add(s)
		for _, e := range edit(s) {
			add(e)
			if th && len(s) < 24 {
				for _, e2 := range edit(e) {
					add(e2)
				}
			}
		}
	}
	if len(b.parts) > 0 {
		n := b.n
		if th {
			n++
		}
		level := []string{""}
		add("")
		for i := 0; i < n; i++ {
			var next []string
			for _, s := range level {
				for _, p := range b.parts {
					next = append(next, s+p)
					add(s + p)
				}
			}
			level = next
		}
	}
	if len(b.products) > 0 {
		level := []string{""}
		for _, l := range b.products {
			var next []string
			for _, s := range level {
				for _, p := range l {
					next = append(next, s+p)
				}
			}
			level = next
		}
		for _, s := range level {
			add(s)
		}
	}
	return out
}

// ---- cases

// fmtShapes put a string (%[1]s) and a format (%[2]s) into a schema.
var fmtShapes = []string{
	`{"const":%[1]s,"not":{"format":%[2]s}}`,
	`{"enum":[%[1]s],"not":{"format":%[2]s}}`,
	`{"allOf":[{"type":"string","enum":[%[1]s]},{"not":{"format":%[2]s}}]}`,
	`{"enum":[%[1]s],"not":{"type":"string","format":%[2]s}}`,
	`{"enum":[%[1]s],"allOf":[{"not":{"format":"uuid"}},{"not":{"format":%[2]s}}]}`,
	`{"enum":[%[1]s],"not":{"not":{"not":{"format":%[2]s}}}}`,
	`{"type":"object","properties":{"p":{"enum":[%[1]s]}},"required":["p"],"additionalProperties":false,"not":{"properties":{"p":{"format":%[2]s}},"required":["p"]}}`,
	`{"type":"object","properties":{"p":{"enum":[%[1]s]}},"required":["p"],"additionalProperties":false,"allOf":[{"not":{"properties":{"p":{"format":%[2]s}},"required":["p"]}},{"not":{"properties":{"p":{"format":"uuid"}},"required":["p"]}}]}`,
	`{"type":"object","properties":{"p":{"enum":[%[1]s]}},"required":["p"],"additionalProperties":false,"allOf":[{"not":{"properties":{"p":{"format":"uuid"}},"required":["p"]}},{"not":{"properties":{"p":{"format":%[2]s}},"required":["p"]}}]}`,
	`{"type":"object","properties":{"p":{"enum":[%[1]s],"not":{"format":%[2]s}}},"required":["p"],"additionalProperties":false,"not":{"properties":{"p":{"format":"uuid"}},"required":["p"]}}`,
	`{"allOf":[{"enum":[%[1]s],"not":{"format":"uuid"}},{"not":{"format":%[2]s}},{"not":{"pattern":"^verif$"}}]}`,
}

func fmtRun(c *jctx, shape, f, s string, want int) {
	q, _ := json.Marshal(s)
	schema := fmt.Sprintf(shape, q, strconv.Quote(f))
	c.key = "format " + schema
	c.St.Cases++
	p := parseQuiet(env{}, schema, nil)
	if p.panicV != "" {
		c.report("panic", p.panicV, map[string]interface{}{"document": schema})
		return
	}
	if p.errs != "" {
		// nothing is left when the only value is excluded
		if want == 0 {
			c.report("rejected", fmt.Sprintf("%q is no %s: %s", s, f, p.errs), map[string]interface{}{"document": schema})
		}
		c.St.Rejected++
		return
	}
	opts := genOpts{UniqueAttempts: 2}
	var outs []string
	st := search(env{}, searchCfg{smallN: 4, fullCap: 100}, func() interface{} { return p.gen.Generate(opts.options()) }, func(o *outcome, _ policy, _ int) bool {
		if o.panicV != "" {
			c.report("panic", o.panicV, map[string]interface{}{"document": schema})
			return false
		}
		b, err := json.Marshal(o.val)
		if err != nil {
			return true
		}
		outs = append(outs, string(b))
		return true
	})
	c.addSearch(st, 1)
	c.St.Cases--
	got := false
	for _, o := range outs {
		var v interface{}
		if json.Unmarshal([]byte(o), &v) != nil {
			continue
		}
		if m, ok := v.(map[string]interface{}); ok && len(m) == 1 {
			v = m["p"]
		}
		if v == interface{}(s) {
			got = true
		}
	}
	if got && want == 1 {
		c.report("value", fmt.Sprintf("%q is a %s and is generated", s, f), map[string]interface{}{"document": schema})
	}
	if !got && want == 0 {
		c.report("unreachable", fmt.Sprintf("%q is no %s and is not generated, but %s", s, f, clip(strings.Join(outs, " "), 200)), map[string]interface{}{"document": schema})
	}
}

func formatJobs(tier string) []job {
	var out []job
	var names []string
	for f := range fmtBases {
		names = append(names, f)
	}
	sort.Strings(names)
	parts := 8
	if tier == "thorough" {
		parts = 64
	}
	for _, f := range names {
		for i := 0; i < parts; i++ {
			out = append(out, job{fmt.Sprintf("format %s %d", f, i), func(c *jctx) {
				third := fmtThird()
				n := 0
				for k, s := range fmtBases[f].strings(c.thorough()) {
					if k%parts != i {
						continue
					}
					want := fmtJudge(f, s, third)
					if want < 0 {
						c.extra("strings_not_judged", 1)
						continue
					}
					c.extra(map[int]string{0: "strings_not_of_the_format", 1: "strings_of_the_format"}[want], 1)
					fmtRun(c, fmtShapes[0], f, s, want)
					n++
					if n%25 == 0 || c.thorough() && n%5 == 0 {
						for _, shape := range fmtShapes[1:] {
							if strings.Contains(shape, "uuid") && fmtGrammar("uuid", s) {
								continue
							}
							fmtRun(c, shape, f, s, want)
						}
					}
				}
			}})
		}
	}
	return out
}

func init() {
	register(&property{
		id: "C25", level: "model_checking",
		rule:  "one case per format, string and place of the negated format; strings are all sequences of parts up to a length, all combinations of field values and all edits of sample strings; non-trivial: a string the grammar and a third-party validator agree on",
		jobs:  formatJobs,
		notes: []string{"strings on which the grammar of the format and the validators of santhosh-tekuri/jsonschema v6 differ are not judged", "regex: the syntax Go's regexp and POSIX share"},
	})
}
