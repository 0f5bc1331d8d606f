package main

// C20: HTTP references contact only allowed hosts over allowed schemes. The real parser runs against real servers on the
// loopback network, which record every request that reaches them.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

// netServer is one server of the test network.
type netServer struct {
	name   string // $G (good, https) $E (evil, https) $g (good, http) $e (evil, http) $U (https, untrusted certificate)
	ip     string
	tls    bool
	addr   string
	origin string
}

type testNet struct {
	servers map[string]*netServer
	mu      sync.Mutex
	hits    []string // "$G /path"
	file    string   // a file holding a marked document
	pages   map[string]func(w http.ResponseWriter, self *netServer)
}

var theNet *testNet

func mustNil(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func newCert(ips []string, parent *x509.Certificate, parentKey *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	mustNil(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
	for _, ip := range ips {
		tpl.IPAddresses = append(tpl.IPAddresses, net.ParseIP(ip))
	}
	if parent == nil {
		tpl.IsCA, tpl.KeyUsage = true, x509.KeyUsageCertSign
		parent, parentKey = tpl, key
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, parent, &key.PublicKey, parentKey)
	mustNil(err)
	cert, err := x509.ParseCertificate(der)
	mustNil(err)
	return cert, key, der
}

func getNet() *testNet {
	if theNet != nil {
		return theNet
	}
	n := &testNet{servers: map[string]*netServer{}}
	dir, err := os.MkdirTemp("", "net-")
	mustNil(err)
	ca, caKey, caDer := newCert(nil, nil, nil)
	other, otherKey, _ := newCert(nil, nil, nil)
	// the process trusts this authority and no other one
	caFile := filepath.Join(dir, "ca.pem")
	mustNil(os.WriteFile(caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDer}), 0o600))
	os.Setenv("SSL_CERT_FILE", caFile)
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	for _, v := range []string{"HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "ALL_PROXY", "all_proxy"} {
		os.Unsetenv(v)
	}
	n.file = filepath.Join(dir, "local.json")
	mustNil(os.WriteFile(n.file, []byte(`{"const":"`+mark("file")+`"}`), 0o600))
	log.SetOutput(io.Discard)
	for _, s := range []*netServer{{name: "$G", ip: "127.0.0.2", tls: true}, {name: "$E", ip: "127.0.0.3", tls: true}, {name: "$g", ip: "127.0.0.2"}, {name: "$e", ip: "127.0.0.3"}, {name: "$U", ip: "127.0.0.2", tls: true}} {
		s := s
		l, err := net.Listen("tcp", s.ip+":0")
		mustNil(err)
		s.addr = l.Addr().String()
		s.origin = "http://" + s.addr
		if s.tls {
			s.origin = "https://" + s.addr
			p, pk := ca, caKey
			if s.name == "$U" {
				p, pk = other, otherKey
			}
			_, key, der := newCert([]string{s.ip}, p, pk)
			l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
		}
		n.servers[s.name] = s
		srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			n.mu.Lock()
			n.hits = append(n.hits, s.name+" "+r.URL.Path)
			n.mu.Unlock()
			if page := n.pages[r.URL.Path]; page != nil {
				page(w, s)
				return
			}
			w.WriteHeader(404)
			io.WriteString(w, `{"const":"`+mark("404")+`"}`)
		})}
		srv.SetKeepAlivesEnabled(false)
		go srv.Serve(l)
	}
	n.pages = n.makePages()
	theNet = n
	return n
}

// x writes the real addresses into a text that names servers.
func (n *testNet) x(s string) string {
	for name, srv := range n.servers {
		s = strings.ReplaceAll(s, name, srv.addr)
	}
	return strings.ReplaceAll(s, "$F", n.file)
}

func (n *testNet) unx(s string) string {
	for name, srv := range n.servers {
		s = strings.ReplaceAll(s, srv.addr, name)
	}
	return strings.ReplaceAll(s, n.file, "$F")
}

func (n *testNet) makePages() map[string]func(w http.ResponseWriter, self *netServer) {
	pages := map[string]func(w http.ResponseWriter, self *netServer){}
	text := func(path, t string) {
		pages[path] = func(w http.ResponseWriter, self *netServer) {
			io.WriteString(w, n.x(strings.ReplaceAll(t, "$SELF", self.name)))
		}
	}
	body := `{"const":"` + mark("$SELF") + `","definitions":{"d":{"const":"` + mark("$SELF") + `"}}}`
	body = strings.ReplaceAll(body, "<$SELF>", "<%SELF>")
	doc := func(w http.ResponseWriter, self *netServer) {
		io.WriteString(w, strings.ReplaceAll(body, "%SELF", self.name))
	}
	for _, p := range []string{"/doc.json", "/dir/doc.json", "/dir/", "/"} {
		pages[p] = doc
	}
	text("/malformed.json", `{"const":"`)
	text("/empty.json", ``)
	text("/list.json", `["`+mark("list")+`"]`)
	pages["/truncated.json"] = func(w http.ResponseWriter, self *netServer) {
		w.Header().Set("Content-Length", "4000")
		doc(w, self)
	}
	pages["/hangup.json"] = func(w http.ResponseWriter, self *netServer) {
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Close()
			}
		}
	}
	pages["/garbage.json"] = func(w http.ResponseWriter, self *netServer) {
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				io.WriteString(c, "garbage\r\n\r\n"+body)
				c.Close()
			}
		}
	}
	for _, st := range []int{201, 202, 206, 300, 400, 401, 403, 404, 410, 500, 503} {
		st := st
		pages[fmt.Sprintf("/status%d.json", st)] = func(w http.ResponseWriter, self *netServer) {
			w.WriteHeader(st)
			doc(w, self)
		}
	}
	for _, st := range []int{301, 302, 303, 307, 308} {
		for to, loc := range redirTargets {
			st, loc := st, loc
			pages[fmt.Sprintf("/to%d%s.json", st, to)] = func(w http.ResponseWriter, self *netServer) {
				w.Header().Set("Location", n.x(strings.ReplaceAll(loc, "$SELF", self.name)))
				w.WriteHeader(st)
				doc(w, self)
			}
		}
	}
	return pages
}

// redirect targets by name
var redirTargets = map[string]string{
	"G": "https://$G/doc.json", "E": "https://$E/doc.json", "g": "http://$g/doc.json", "e": "http://$e/doc.json", "U": "https://$U/doc.json",
	"rel": "doc.json", "abs": "/dir/doc.json", "slashE": "//$E/doc.json", "slashe": "//$e/doc.json", "GE": "https://$G/to302E.json", "Ge": "https://$G/to302e.json", "GG": "https://$G/to302G.json", "EG": "https://$E/to302G.json", "gG": "http://$g/to302G.json", "eG": "http://$e/to302G.json",
	"file": "file://$F", "none": "", "user": "https://$G@$E/doc.json",
}

// whereTo follows the redirects of a page from the server s: the requests it takes, in order, and the server whose
// document is obtained ("" if that fails).
func whereTo(s, path string) (hits []string, final string) {
	for i := 0; i < 8; i++ {
		hits = append(hits, s+" "+path)
		if s == "$U" {
			return hits[:len(hits)-1], "" // the certificate is not trusted
		}
		if path == "/doc.json" || path == "/dir/doc.json" || path == "/dir/" || path == "/" {
			return hits, s
		}
		if !strings.HasPrefix(path, "/to") {
			return hits, ""
		}
		to := strings.TrimSuffix(path[6:], ".json")
		switch loc := redirTargets[to]; {
		case to == "rel":
			path = "/doc.json"
		case to == "abs":
			path = "/dir/doc.json"
		case strings.HasPrefix(loc, "//"):
			if (s == "$G" || s == "$E") != (loc[3] == 'E') {
				return hits, "" // http on an https port or the other way round
			}
			s, path = loc[2:4], loc[4:]
		case to == "user":
			s, path = "$E", "/doc.json"
		case strings.HasPrefix(loc, "http"):
			i := strings.Index(loc, "$")
			s, path = loc[i:i+2], loc[i+2:]
		default:
			return hits, ""
		}
	}
	return hits, ""
}

type httpConf struct {
	Disabled   bool     `json:"disabled,omitempty"`
	Insecure   bool     `json:"insecure,omitempty"`
	Hosts      []string `json:"hosts,omitempty"`
	RelativeTo string   `json:"relative_to,omitempty"`
}

// mayContact is the specification.
func mayContact(c httpConf, s string) bool {
	if c.Disabled || !c.Insecure && (s == "$g" || s == "$e") {
		return false
	}
	if len(c.Hosts) == 0 {
		return true
	}
	for _, h := range c.Hosts {
		if h == s || h == "https://"+s || h == "http://"+s || h == "https://"+s+"/" || h == "https://"+s+"/some/path" {
			return true
		}
	}
	return false
}

var httpPositions = []struct {
	name, tmpl string
	observe    bool
}{
	{"root", `{"$ref":R}`, true},
	{"property", `{"type":"object","properties":{"a":{"$ref":R}},"required":["a"]}`, true},
	{"merged", `{"allOf":[{"$ref":R},{"type":"string"}]}`, true},
	{"not", `{"type":"integer","not":{"$ref":R}}`, false},
	{"unused definition", `{"type":"null","$defs":{"x":{"$ref":R}}}`, false},
}

type httpRef struct {
	ref  string
	to   string // "$G /path" it plainly points to; "": only has to be harmless
	base bool   // relative: resolved against RelativeTo
}

func httpRefs(thorough bool) []httpRef {
	var out []httpRef
	abs := func(scheme, s, path string) {
		out = append(out, httpRef{scheme + "://" + s + path, s + " " + path, false})
	}
	for _, s := range []string{"$G", "$E", "$g", "$e", "$U"} {
		scheme := "https"
		if s == "$g" || s == "$e" {
			scheme = "http"
		}
		abs(scheme, s, "/doc.json")
		out = append(out, httpRef{scheme + "://" + s + "/doc.json#/definitions/d", s + " /doc.json", false}, httpRef{scheme + "://" + s + "/x/../doc.json", "", false})
	}
	for _, p := range []string{"/malformed.json", "/empty.json", "/list.json", "/truncated.json", "/hangup.json", "/garbage.json", "/none.json", "/status201.json", "/status206.json", "/status300.json", "/status404.json", "/status500.json", "/status503.json", "/dir/", "/"} {
		abs("https", "$G", p)
		abs("http", "$g", p)
	}
	names := []string{}
	for to := range redirTargets {
		names = append(names, to)
	}
	sort.Strings(names)
	for i, to := range names {
		for k, st := range []int{301, 302, 303, 307, 308} {
			if !thorough && (i+k)%5 != 0 && k != 1 {
				continue
			}
			abs("https", "$G", fmt.Sprintf("/to%d%s.json", st, to))
			if thorough || k == 1 {
				abs("http", "$g", fmt.Sprintf("/to%d%s.json", st, to))
			}
		}
	}
	for _, r := range []string{"doc.json", "dir/doc.json", "/doc.json", "./doc.json", "../doc.json", "to302E.json", "to302G.json", "doc.json#/definitions/d"} {
		out = append(out, httpRef{r, "", true})
	}
	for _, r := range []string{"//$E/doc.json", "//$G/doc.json", "//$e/doc.json", "https://$G@$E/doc.json", "https://user:pw@$E/doc.json", "http://$g@$e/doc.json", "https://$E?@$G/doc.json", "https://$E#@$G/doc.json", "https://$E\\@$G/doc.json", "https:$E/doc.json", "https:/$E/doc.json", "https:///$E/doc.json", "HTTPS://$E/doc.json", "HTTP://$e/doc.json", "Http://$g/doc.json",
		"http://$E/doc.json", "https://$e/doc.json", "http://$G/doc.json", "ftp://$G/doc.json", "gopher://$e/doc.json", "file://$F", "$F", "file://$E/doc.json", "https://$G/\\$E/doc.json", " https://$E/doc.json", "https://$E/doc.json ", "\thttps://$E/doc.json", "https://$E\n/doc.json", "https://%31%32%37.0.0.3/doc.json", "https://127.0.0.2/doc.json", "https://$G./doc.json",
		"https://$G:80/doc.json", "https://$G%00.$E/doc.json", "https://$G/..//$E/doc.json", "https://$E/https://$G/doc.json", "https://$G/%2e%2e/doc.json", "https://$E;$G/doc.json", "https://[::ffff:127.0.0.3]/doc.json", "http+unix://$e/doc.json", "https://$G /doc.json", "javascript://$E/doc.json", "view-source:https://$E/doc.json", "urn:$E", ""} {
		out = append(out, httpRef{r, "", false})
	}
	return out
}

type httpReplay struct {
	Conf   httpConf `json:"conf"`
	Schema string   `json:"schema"`
	Chain  string   `json:"chain,omitempty"`
	Hits   []string `json:"requests"`
}

func (n *testNet) run(conf httpConf, pos int, r httpRef, chain string) (kind, why, class string, rep httpReplay) {
	p := httpPositions[pos]
	q, _ := json.Marshal(n.x(r.ref))
	doc := strings.ReplaceAll(strings.ReplaceAll(p.tmpl, "R}", string(q)+"}"), "R,", string(q)+",")
	schema := doc
	if chain != "" {
		n.pages["/chain.json"] = func(w http.ResponseWriter, self *netServer) { io.WriteString(w, doc) }
		scheme := "https"
		if chain == "$g" {
			scheme = "http"
		}
		schema = `{"$ref":"` + n.x(scheme+"://"+chain+"/chain.json") + `"}`
		if pos == 2 {
			schema = `{"allOf":[` + schema + `]}`
		}
	}
	hosts := []string{}
	for _, h := range conf.Hosts {
		hosts = append(hosts, n.x(h))
	}
	po := &chaff.ParserOptions{RelativeTo: n.x(conf.RelativeTo), DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: !conf.Disabled, AllowInsecure: conf.Insecure, AllowedHosts: hosts}}}
	n.mu.Lock()
	n.hits = nil
	n.mu.Unlock()
	var gen chaff.RootGenerator
	var err error
	panicV := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				panicV = fmt.Sprint(x, " at ", panicSite())
			}
		}()
		gen, err = chaff.ParseSchemaString(schema, po)
	}()
	n.mu.Lock()
	hits := append([]string(nil), n.hits...)
	n.mu.Unlock()
	rep = httpReplay{conf, n.unx(schema), n.unx(doc), hits}
	if chain == "" {
		rep.Chain = ""
	}
	if panicV != "" {
		return "panic", "parsing panics: " + panicV, "", rep
	}
	errs := parseErrs(gen, err)
	vals := []string{}
	if gen.Generator != nil {
		for _, pol := range []policy{polLow, polMix} {
			out := runCtl(env{0, 0}, execCfg{horizon: 5000}, nil, pol, func() interface{} {
				return gen.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(1), MaximumReferenceDepth: 6})
			})
			b, _ := json.Marshal(out.val)
			vals = append(vals, strings.NewReplacer(`\u003c`, "<", `\u003e`, ">").Replace(string(b)))
		}
	}
	for _, h := range hits {
		if !mayContact(conf, h[:2]) {
			return "forbidden-request", fmt.Sprintf("the request %s is made although it is not allowed (all: %v)", h, hits), "", rep
		}
		if h[:2] == "$U" {
			return "untrusted-server", "a request is made to the server without a trusted certificate", "", rep
		}
	}
	shown := fmt.Sprint(vals, errs)
	for s := range n.servers {
		if !mayContact(conf, s) && strings.Contains(shown, mark(s)) {
			return "leak", "the document of " + s + " shows in the output: " + clip(shown, 200), "", rep
		}
	}
	if strings.Contains(shown, mark("file")) {
		return "leak", "a local file shows in the output: " + clip(shown, 200), "", rep
	}
	n.mu.Lock()
	late := len(n.hits) != len(hits)
	n.mu.Unlock()
	if late {
		return "late-request", "generating makes requests", "", rep
	}
	to := r.to
	if r.base {
		base := chain + "/"
		if chain == "" {
			base = strings.TrimPrefix(strings.TrimPrefix(conf.RelativeTo, "https://"), "http://")
		}
		if base == "" || base == "/" {
			to = ""
			if len(errs) == 0 {
				return "refusal-unreported", "a relative reference without a base address is not reported", "", rep
			}
			return "", "", "odd", rep
		}
		dir := base[2 : strings.LastIndex(base, "/")+1]
		ref := strings.SplitN(r.ref, "#", 2)[0]
		if strings.HasPrefix(ref, "/") {
			dir = ""
		}
		to = base[:2] + " " + filepath.Clean(dir+ref)
		if strings.HasPrefix(ref, "..") && dir == "/" {
			to = base[:2] + " /doc.json"
		}
	}
	if to == "" {
		return "", "", fmt.Sprint("odd ", len(hits)), rep
	}
	want, final := whereTo(to[:2], to[3:])
	if chain != "" {
		want = append([]string{chain + " /chain.json"}, want...)
	}
	if to[:2] == "$U" && !mayContact(conf, "$U") {
		final = ""
	}
	for _, h := range want {
		if !mayContact(conf, h[:2]) {
			final = ""
		}
	}
	if final == "" {
		if len(errs) == 0 {
			return "refusal-unreported", fmt.Sprintf("the document can not be fetched but no error is reported (requests: %v)", hits), "", rep
		}
		return "", "", "refused", rep
	}
	if len(errs) > 0 && p.observe {
		return "allowed-refused", fmt.Sprintf("the document of %s may be fetched, but: %s", final, clip(n.unx(fmt.Sprint(errs)), 300)), "", rep
	}
	for _, v := range vals {
		if p.observe && !strings.Contains(v, mark(final)) {
			return "wrong-value", fmt.Sprintf("the reference to %s yields %s", final, clip(v, 200)), "", rep
		}
	}
	return "", "", "followed", rep
}

func httpConfs(thorough bool) []httpConf {
	lists := [][]string{nil, {"$G"}, {"$G", "$g"}, {"https://$G"}, {"$E", "$e"}, {"https://$G/some/path", "http://$g"}, {"$G", "$E", "$g", "$e", "$U"}, {"127.0.0.2"}, {"*"}, {"$G.evil.test", "evil.test"}}
	rels := []string{"", "https://$G/dir/main.json", "http://$g/main.json", "https://$E/main.json", "http://$e/dir/"}
	var out []httpConf
	for li, l := range lists {
		for _, ins := range []bool{false, true} {
			for ri, r := range rels {
				if !thorough && ri > 1 && (li+ri)%2 == 1 {
					continue
				}
				out = append(out, httpConf{Insecure: ins, Hosts: l, RelativeTo: r})
			}
			if thorough || li < 2 {
				out = append(out, httpConf{Disabled: true, Insecure: ins, Hosts: l}, httpConf{Disabled: true, Insecure: ins, Hosts: l, RelativeTo: rels[1]})
			}
		}
	}
	return out
}

func httpJob(conf httpConf, thorough bool) job {
	cb, _ := json.Marshal(conf)
	name := "http " + string(cb)
	return job{key: name, run: func(c *jctx) {
		n := getNet()
		classes := map[string]int{}
		for pi := range httpPositions {
			for ci, chain := range []string{"", "$G", "$g"} {
				if !thorough && ci > 0 && pi > 2 {
					continue
				}
				for ri, r := range httpRefs(thorough) {
					if !thorough && (ci+pi > 0 && pi != 2 || ci == 2) && (ri+pi)%3 != 0 {
						continue
					}
					c.key = fmt.Sprintf("%s | %s | %s | %q", name, httpPositions[pi].name, chain, r.ref)
					kind, why, class, rep := n.run(conf, pi, r, chain)
					c.St.Cases++
					c.St.Executions += 3
					c.St.States++
					c.St.Transitions += len(rep.Hits)
					c.St.Complete++
					if len(rep.Hits) > c.St.MaxDepth {
						c.St.MaxDepth = len(rep.Hits)
					}
					classes[class]++
					if kind != "" {
						c.report(kind, why+"\nschema: "+rep.Schema+" chain: "+rep.Chain, rep)
					}
					if heartbeat != nil {
						heartbeat()
					}
				}
			}
		}
		for k, m := range classes {
			c.St.Outcomes++
			if k != "" {
				c.extra(strings.SplitN(k, " ", 2)[0], m)
			}
		}
		c.St.Samples = append(c.St.Samples, name)
	}}
}

func init() {
	register(&property{
		id:    "C20",
		level: "model_checking",
		rule:  "Every combination of fetch options, address, server answer, redirect, position and intermediate document is run on the real parser against servers on the loopback network. The requests that reach a server must be allowed by the configuration, forbidden documents must not show, refused and failing fetches must be reported and allowed ones followed.",
		jobs: func(tier string) []job {
			var out []job
			for _, c := range httpConfs(tier == "thorough") {
				out = append(out, httpJob(c, tier == "thorough"))
			}
			return out
		},
		notes: []string{"Servers that never answer are left out: the library sets no time limit.", "An allowed host without a port is not taken to allow every port."},
	})
}
