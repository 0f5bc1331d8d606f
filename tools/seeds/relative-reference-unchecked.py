ID='relative-reference-unchecked'; PROPERTY='C20'
NEEDS='a relative reference in a document whose location is a host that is not allowed'
BREAKS='relative references are taken to stay at an allowed host: the host and scheme they are resolved to are not checked'
EDITS=[('fetchers.go','''	if baseUrl.Scheme == "http" || baseUrl.Scheme == "https" {
		resolvedUrl = baseUrl.ResolveReference(parsedUrl)
	}
''','''	if baseUrl.Scheme == "http" || baseUrl.Scheme == "https" {
		// The host of the document itself has been checked when it was fetched
		if resolvedUrl = baseUrl.ResolveReference(parsedUrl); parsedUrl.Host == "" {
			return resolvedUrl.String(), nil
		}
	}
''')]
DEMO=open('/verif/seeded/https-downgrade-same-host/demo_test.go').read().split('func TestPlantedDemo')[0].replace('''	"crypto/tls"
	"crypto/x509"
''','')+'''func TestPlantedDemo(t *testing.T) {
	var fetched int32
	other := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt32(&fetched, 1)
		_, _ = w.Write([]byte(`{"const":"other"}`))
	}))
	defer other.Close()
	g, err := chaff.ParseSchemaString(`{"$ref":"a.json"}`, &chaff.ParserOptions{RelativeTo: other.URL + "/root.json", DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true, AllowedHosts: []string{"127.0.0.1:1"}}}})
	if err == nil {
		_ = g.Generate(&chaff.GeneratorOptions{})
	}
	if atomic.LoadInt32(&fetched) != 0 {
		t.Fatal("a document was fetched from a host that is not allowed")
	}
}
'''
