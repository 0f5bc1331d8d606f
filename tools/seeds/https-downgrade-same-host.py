ID='https-downgrade-same-host'; PROPERTY='C20'
NEEDS='a document loaded over https that refers with an absolute http:// $ref to another document of the same host name, AllowInsecure off'
BREAKS='documents of a host that has been loaded already skip the check of the fetch options, so a document is fetched over plain http although insecure connections are not allowed'
EDITS=[('document.go','''	resolvedDocumentId, err := fetcher.resolveDocumentId(r.GetCurrentScope(), documentID)
	if err != nil {
		return "", "", fmt.Errorf("failed to resolve document ID for''','''	// A host that has been checked already does not have to be checked again
	resolvedDocumentId, err := documentID, error(nil)
	if !isOnSameHost(r.GetCurrentScope(), documentID) {
		resolvedDocumentId, err = fetcher.resolveDocumentId(r.GetCurrentScope(), documentID)
	}

	if err != nil {
		return "", "", fmt.Errorf("failed to resolve document ID for'''),('document.go','''// nearestBaseURI walks up''','''// Returns if two absolute URIs have got the same host
func isOnSameHost(uri string, otherURI string) bool {
	parsed, err := url.Parse(uri)
	otherParsed, otherErr := url.Parse(otherURI)
	return err == nil && otherErr == nil && otherParsed.Host != "" && parsed.Hostname() == otherParsed.Hostname()
}

// nearestBaseURI walks up''')]
DEMO='''package chaff_test

import (
	"crypto/tls"
	"crypto/x509"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"

	chaff "github.com/ryanolee/go-chaff"
)

func TestPlantedDemo(t *testing.T) {
	var insecure int32
	plain := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt32(&insecure, 1)
		_, _ = w.Write([]byte(`{"const":"plain"}`))
	}))
	defer plain.Close()
	secure := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte(`{"type":"object","properties":{"a":{"$ref":"` + plain.URL + `/b.json"}},"required":["a"]}`))
	}))
	defer secure.Close()
	pool := x509.NewCertPool()
	pool.AddCert(secure.Certificate())
	transport := http.DefaultTransport.(*http.Transport)
	old := transport.TLSClientConfig
	transport.TLSClientConfig = &tls.Config{RootCAs: pool}
	defer func() { transport.TLSClientConfig = old }()
	host := secure.Listener.Addr().String()
	g, err := chaff.ParseSchemaString(`{"$ref":"`+secure.URL+`/a.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowedHosts: []string{host, plain.Listener.Addr().String()}}}})
	if err == nil {
		_ = g.Generate(&chaff.GeneratorOptions{})
	}
	if atomic.LoadInt32(&insecure) != 0 {
		t.Fatal("a document was fetched over http although insecure connections are not allowed")
	}
}
'''
