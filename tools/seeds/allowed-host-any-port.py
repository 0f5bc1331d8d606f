ID='allowed-host-any-port'; PROPERTY='C20'
NEEDS='an allowed host given with its port and a reference to another port of that host'
BREAKS='only the names of hosts are compared: other services of an allowed host are fetched from'
EDITS=[('fetchers.go','''			allowedHosts = append(allowedHosts, parsedUrl.Host)
''','''			allowedHosts = append(allowedHosts, parsedUrl.Hostname())
'''),('fetchers.go','''			allowedHosts = append(allowedHosts, host)
''','''			name, _, _ := strings.Cut(host, ":")
			allowedHosts = append(allowedHosts, name)
'''),('fetchers.go','''		if !funk.Contains(f.allowedHosts, target.Host) {
''','''		if !funk.Contains(f.allowedHosts, target.Hostname()) {
''')]
DEMO=open('/verif/seeded/https-downgrade-same-host/demo_test.go').read().split('func TestPlantedDemo')[0].replace('''	"crypto/tls"
	"crypto/x509"
''','')+'''func TestPlantedDemo(t *testing.T) {
	var fetched int32
	other := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt32(&fetched, 1)
		_, _ = w.Write([]byte(`{"const":"other"}`))
	}))
	defer other.Close()
	g, err := chaff.ParseSchemaString(`{"$ref":"`+other.URL+`/a.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true, AllowedHosts: []string{"127.0.0.1:1"}}}})
	if err == nil {
		_ = g.Generate(&chaff.GeneratorOptions{})
	}
	if atomic.LoadInt32(&fetched) != 0 {
		t.Fatal("a document was fetched from a port that is not allowed")
	}
}
'''
