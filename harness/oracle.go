package main

// Reference JSON Schema semantics (draft 2020-12, plus the legacy array form of
// "items" with "additionalItems"), written from the specification with exact
// decimal arithmetic. Deliberately boring; shares no code with the library.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/mail"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func decodeJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

func mustDecode(s string) interface{} {
	v, err := decodeJSON([]byte(s))
	if err != nil {
		panic("bad JSON in harness: " + err.Error() + ": " + s)
	}
	return v
}

func encodeJSON(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimRight(b.String(), "\n")
}

func rat(n json.Number) *big.Rat {
	s := string(n)
	// bound the exponent: 1e400 and the like are not produced by the alphabet
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return new(big.Rat)
	}
	return r
}

func jsonEqual(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		y, ok := b.(json.Number)
		return ok && (x == y || rat(x).Cmp(rat(y)) == 0)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			yv, ok := y[k]
			if !ok || !jsonEqual(x[k], yv) {
				return false
			}
		}
		return true
	}
	return false
}

type validator struct {
	root   interface{}
	docs   map[string]interface{} // absolute URI (no fragment) -> document
	format bool                   // assert formats
	depth  int
	re     map[string]*regexp.Regexp
}

func newValidator(schema interface{}) *validator {
	return &validator{root: schema, re: map[string]*regexp.Regexp{}, format: true}
}

type evaluated struct {
	items int // prefix evaluated
	all   bool
	idx   map[int]bool
	props map[string]bool
}

func (e *evaluated) merge(o *evaluated) {
	if o == nil {
		return
	}
	if o.items > e.items {
		e.items = o.items
	}
	e.all = e.all || o.all
	for k := range o.idx {
		e.addIdx(k)
	}
	for k := range o.props {
		e.addProp(k)
	}
}
func (e *evaluated) addIdx(i int) {
	if e.idx == nil {
		e.idx = map[int]bool{}
	}
	e.idx[i] = true
}
func (e *evaluated) addProp(k string) {
	if e.props == nil {
		e.props = map[string]bool{}
	}
	e.props[k] = true
}

// check returns "" when v is valid against the root schema, else a reason.
func (va *validator) check(v interface{}) string {
	va.depth = 0
	_, why := va.eval(va.root, v)
	return why
}

func (va *validator) ok(s, v interface{}) bool {
	_, why := va.eval(s, v)
	return why == ""
}

func num(v interface{}) (*big.Rat, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return nil, false
	}
	return rat(n), true
}

func intKw(s map[string]interface{}, k string) (int, bool) {
	n, ok := s[k].(json.Number)
	if !ok {
		return 0, false
	}
	r := rat(n)
	if !r.IsInt() {
		return 0, false
	}
	return int(r.Num().Int64()), true
}

func typeOf(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case json.Number:
		return "number"
	case []interface{}:
		return "array"
	}
	return "object"
}

func typeMatches(t string, v interface{}) bool {
	if t == "integer" {
		r, ok := num(v)
		return ok && r.IsInt()
	}
	return typeOf(v) == t
}

func (va *validator) regex(p string) *regexp.Regexp {
	if r, ok := va.re[p]; ok {
		return r
	}
	r, err := regexp.Compile(p)
	if err != nil {
		r = nil
	}
	va.re[p] = r
	return r
}

// eval returns the evaluated locations and "" or the reason of failure.
func (va *validator) eval(schema, v interface{}) (*evaluated, string) {
	ev := &evaluated{}
	va.depth++
	defer func() { va.depth-- }()
	if va.depth > 400 {
		return ev, "" // self-reference without progress: no constraint
	}
	switch b := schema.(type) {
	case bool:
		if b {
			return ev, ""
		}
		return ev, "false schema"
	case map[string]interface{}:
	default:
		return ev, ""
	}
	s := schema.(map[string]interface{})

	if ref, ok := s["$ref"].(string); ok {
		target, ok := va.resolve(ref)
		if !ok {
			return ev, "unresolvable $ref " + ref
		}
		e, why := va.eval(target, v)
		if why != "" {
			return ev, why
		}
		ev.merge(e)
	}
	switch t := s["type"].(type) {
	case string:
		if !typeMatches(t, v) {
			return ev, "type: want " + t + " got " + typeOf(v)
		}
	case []interface{}:
		ok := false
		for _, x := range t {
			if xs, isS := x.(string); isS && typeMatches(xs, v) {
				ok = true
			}
		}
		if !ok {
			return ev, "type: not among the listed types: " + typeOf(v)
		}
	}
	if en, ok := s["enum"].([]interface{}); ok {
		hit := false
		for _, x := range en {
			hit = hit || jsonEqual(x, v)
		}
		if !hit {
			return ev, "enum: not a member"
		}
	}
	if c, ok := s["const"]; ok && !jsonEqual(c, v) {
		return ev, "const: differs"
	}
	if r, ok := num(v); ok {
		if b, ok := num(s["minimum"]); ok && r.Cmp(b) < 0 {
			return ev, "minimum"
		}
		if b, ok := num(s["maximum"]); ok && r.Cmp(b) > 0 {
			return ev, "maximum"
		}
		if b, ok := num(s["exclusiveMinimum"]); ok && r.Cmp(b) <= 0 {
			return ev, "exclusiveMinimum"
		}
		if b, ok := num(s["exclusiveMaximum"]); ok && r.Cmp(b) >= 0 {
			return ev, "exclusiveMaximum"
		}
		if b, ok := num(s["multipleOf"]); ok && b.Sign() > 0 && !isMultiple(r, b) {
			return ev, "multipleOf"
		}
	}
	if str, ok := v.(string); ok {
		n := utf8.RuneCountInString(str)
		if b, ok := intKw(s, "minLength"); ok && n < b {
			return ev, "minLength"
		}
		if b, ok := intKw(s, "maxLength"); ok && n > b {
			return ev, "maxLength"
		}
		if p, ok := s["pattern"].(string); ok {
			if re := va.regex(p); re != nil && !re.MatchString(str) {
				return ev, "pattern"
			}
		}
		if f, ok := s["format"].(string); ok && va.format && !formatOK(f, str) {
			return ev, "format"
		}
	}
	if arr, ok := v.([]interface{}); ok {
		if why := va.evalArray(s, arr, ev); why != "" {
			return ev, why
		}
	}
	if obj, ok := v.(map[string]interface{}); ok {
		if why := va.evalObject(s, obj, ev); why != "" {
			return ev, why
		}
	}
	if l, ok := s["allOf"].([]interface{}); ok {
		for i, x := range l {
			e, why := va.eval(x, v)
			if why != "" {
				return ev, fmt.Sprintf("allOf/%d: %s", i, why)
			}
			ev.merge(e)
		}
	}
	if l, ok := s["anyOf"].([]interface{}); ok {
		hit := 0
		for _, x := range l {
			if e, why := va.eval(x, v); why == "" {
				hit++
				ev.merge(e)
			}
		}
		if hit == 0 {
			return ev, "anyOf: no branch holds"
		}
	}
	if l, ok := s["oneOf"].([]interface{}); ok {
		hit := 0
		for _, x := range l {
			if e, why := va.eval(x, v); why == "" {
				hit++
				ev.merge(e)
			}
		}
		if hit != 1 {
			return ev, fmt.Sprintf("oneOf: %d branches hold", hit)
		}
	}
	if n, ok := s["not"]; ok && va.ok(n, v) {
		return ev, "not: the negated schema holds"
	}
	if c, ok := s["if"]; ok {
		if e, why := va.eval(c, v); why == "" {
			ev.merge(e)
			if t, ok := s["then"]; ok {
				e, why := va.eval(t, v)
				if why != "" {
					return ev, "then: " + why
				}
				ev.merge(e)
			}
		} else if t, ok := s["else"]; ok {
			e, why := va.eval(t, v)
			if why != "" {
				return ev, "else: " + why
			}
			ev.merge(e)
		}
	}
	if u, ok := s["unevaluatedItems"]; ok {
		if arr, ok := v.([]interface{}); ok && !ev.all {
			for i := ev.items; i < len(arr); i++ {
				if !ev.idx[i] && !va.ok(u, arr[i]) {
					return ev, "unevaluatedItems"
				}
			}
			ev.all = true
		}
	}
	if u, ok := s["unevaluatedProperties"]; ok {
		if obj, ok := v.(map[string]interface{}); ok {
			for k, x := range obj {
				if !ev.props[k] && !va.ok(u, x) {
					return ev, "unevaluatedProperties"
				}
			}
		}
	}
	return ev, ""
}

func isMultiple(r, b *big.Rat) bool {
	q := new(big.Rat).Quo(r, b)
	return q.IsInt()
}

func (va *validator) evalArray(s map[string]interface{}, arr []interface{}, ev *evaluated) string {
	if b, ok := intKw(s, "minItems"); ok && len(arr) < b {
		return "minItems"
	}
	if b, ok := intKw(s, "maxItems"); ok && len(arr) > b {
		return "maxItems"
	}
	if u, ok := s["uniqueItems"].(bool); ok && u {
		for i := range arr {
			for j := 0; j < i; j++ {
				if jsonEqual(arr[i], arr[j]) {
					return "uniqueItems"
				}
			}
		}
	}
	prefix, _ := s["prefixItems"].([]interface{})
	rest, hasRest := s["items"]
	if tup, ok := rest.([]interface{}); ok { // legacy tuple form
		prefix = tup
		rest, hasRest = s["additionalItems"]
	}
	for i := 0; i < len(prefix) && i < len(arr); i++ {
		if _, why := va.eval(prefix[i], arr[i]); why != "" {
			return fmt.Sprintf("prefixItems/%d: %s", i, why)
		}
		if i+1 > ev.items {
			ev.items = i + 1
		}
	}
	if hasRest {
		for i := len(prefix); i < len(arr); i++ {
			if _, why := va.eval(rest, arr[i]); why != "" {
				return "items: " + why
			}
		}
		ev.all = true
	}
	if c, ok := s["contains"]; ok {
		n := 0
		for i, x := range arr {
			if va.ok(c, x) {
				n++
				ev.addIdx(i)
			}
		}
		min, hasMin := intKw(s, "minContains")
		if !hasMin {
			min = 1
		}
		if n < min {
			return "contains/minContains"
		}
		if max, ok := intKw(s, "maxContains"); ok && n > max {
			return "maxContains"
		}
	}
	return ""
}

func (va *validator) evalObject(s map[string]interface{}, obj map[string]interface{}, ev *evaluated) string {
	if b, ok := intKw(s, "minProperties"); ok && len(obj) < b {
		return "minProperties"
	}
	if b, ok := intKw(s, "maxProperties"); ok && len(obj) > b {
		return "maxProperties"
	}
	if req, ok := s["required"].([]interface{}); ok {
		for _, k := range req {
			if _, ok := obj[k.(string)]; !ok {
				return "required: " + k.(string)
			}
		}
	}
	props, _ := s["properties"].(map[string]interface{})
	pats, _ := s["patternProperties"].(map[string]interface{})
	addl, hasAddl := s["additionalProperties"]
	keys := make([]string, 0, len(obj))
	for k := range obj {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x := obj[k]
		known := false
		if ps, ok := props[k]; ok {
			known = true
			if _, why := va.eval(ps, x); why != "" {
				return "properties/" + k + ": " + why
			}
		}
		for p, ps := range pats {
			if re := va.regex(p); re != nil && re.MatchString(k) {
				known = true
				if _, why := va.eval(ps, x); why != "" {
					return "patternProperties: " + why
				}
			}
		}
		if !known && hasAddl {
			if _, why := va.eval(addl, x); why != "" {
				return "additionalProperties: " + k + ": " + why
			}
			known = true
		}
		if known {
			ev.addProp(k)
		}
	}
	return ""
}

// ---- references (single document, plus docs when set)

func (va *validator) resolve(ref string) (interface{}, bool) {
	base, frag := ref, ""
	if i := strings.IndexByte(ref, '#'); i >= 0 {
		base, frag = ref[:i], ref[i+1:]
	}
	doc := va.root
	if base != "" {
		if d, ok := findID(va.root, base); ok {
			doc = d
		} else if d, ok := va.docs[base]; ok {
			doc = d
		} else {
			return nil, false
		}
	}
	if frag == "" {
		return doc, true
	}
	if !strings.HasPrefix(frag, "/") {
		return findAnchor(doc, frag)
	}
	return pointer(doc, frag)
}

func pointer(doc interface{}, ptr string) (interface{}, bool) {
	cur := doc
	for _, tok := range strings.Split(ptr[1:], "/") {
		if u, err := url.PathUnescape(tok); err == nil {
			tok = u
		}
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		switch c := cur.(type) {
		case map[string]interface{}:
			n, ok := c[tok]
			if !ok {
				return nil, false
			}
			cur = n
		case []interface{}:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(c) {
				return nil, false
			}
			cur = c[i]
		default:
			return nil, false
		}
	}
	return cur, true
}

func findID(doc interface{}, id string) (interface{}, bool) {
	switch c := doc.(type) {
	case map[string]interface{}:
		if c["$id"] == id {
			return c, true
		}
		for _, x := range c {
			if d, ok := findID(x, id); ok {
				return d, ok
			}
		}
	case []interface{}:
		for _, x := range c {
			if d, ok := findID(x, id); ok {
				return d, ok
			}
		}
	}
	return nil, false
}

func findAnchor(doc interface{}, a string) (interface{}, bool) {
	switch c := doc.(type) {
	case map[string]interface{}:
		if c["$anchor"] == a {
			return c, true
		}
		for _, x := range c {
			if d, ok := findAnchor(x, a); ok {
				return d, ok
			}
		}
	case []interface{}:
		for _, x := range c {
			if d, ok := findAnchor(x, a); ok {
				return d, ok
			}
		}
	}
	return nil, false
}

// ---- formats

var (
	reHost  = regexp.MustCompile(`^([A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?)(\.[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?)*$`)
	reUUID  = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)
	reDur   = regexp.MustCompile(`^P(\d+W|(\d+Y)?(\d+M)?(\d+D)?(T(\d+H)?(\d+M)?(\d+S)?)?)$`)
	reIPv4  = regexp.MustCompile(`^(25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)(\.(25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)){3}$`)
	rePtr   = regexp.MustCompile(`^(/([^~]|~[01])*)*$`)
	reRelP  = regexp.MustCompile(`^(0|[1-9]\d*)(#|(/([^~]|~[01])*)*)$`)
	reOff   = regexp.MustCompile(`([zZ]|[+-]([01]\d|2[0-3]):[0-5]\d)$`) // time.Parse takes 24:00, RFC 3339 does not
	reTimeS = regexp.MustCompile(`^\d\d:\d\d:\d\d(\.\d+)?([zZ]|[+-]\d\d:\d\d)$`)
)

func formatOK(f, s string) bool {
	switch f {
	case "date-time":
		_, err := time.Parse(time.RFC3339, s)
		return err == nil && reOff.MatchString(s)
	case "date":
		_, err := time.Parse("2006-01-02", s)
		return err == nil
	case "time":
		if !reTimeS.MatchString(s) || !reOff.MatchString(s) {
			return false
		}
		_, err := time.Parse(time.RFC3339, "2000-01-01T"+s)
		return err == nil
	case "duration":
		return reDur.MatchString(s) && s != "P" && !strings.HasSuffix(s, "T")
	case "email", "idn-email":
		a, err := mail.ParseAddress(s)
		return err == nil && a.Address == s && strings.Contains(s, "@")
	case "hostname", "idn-hostname":
		return len(s) <= 253 && reHost.MatchString(s)
	case "ipv4":
		return reIPv4.MatchString(s)
	case "ipv6":
		return strings.Contains(s, ":") && net.ParseIP(s) != nil
	case "uuid":
		return reUUID.MatchString(s)
	case "uri", "iri":
		u, err := url.Parse(s)
		return err == nil && u.IsAbs()
	case "uri-reference", "iri-reference":
		_, err := url.Parse(s)
		return err == nil
	case "regex":
		_, err := regexp.Compile(s)
		return err == nil
	case "json-pointer":
		return rePtr.MatchString(s)
	case "relative-json-pointer":
		return reRelP.MatchString(s)
	}
	return true
}
