ID='http-documents-cut'; PROPERTY='C21'
NEEDS='a document of more than 1 MiB on a server'
BREAKS='only the first mebibyte of a document is read, references to larger documents fail'
EDITS=[('fetchers.go','''	data, err := io.ReadAll(resp.Body)
''','''	// Do not let a server send any amount of data
	data, err := io.ReadAll(io.LimitReader(resp.Body, 1<<20))
''')]
DEMO='''package chaff_test

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	chaff "github.com/ryanolee/go-chaff"
)

func TestPlantedDemo(t *testing.T) {
	server := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _ = w.Write([]byte(`{"description":"` + strings.Repeat("x", 2<<20) + `","const":"large"}`))
	}))
	defer server.Close()
	g, err := chaff.ParseSchemaString(`{"$ref":"`+server.URL+`/a.json"}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}}})
	if err != nil {
		t.Fatal(err)
	}
	if value := g.Generate(&chaff.GeneratorOptions{}); value != "large" {
		t.Fatal(value)
	}
}
'''
