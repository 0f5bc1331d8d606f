ID='status-below-400'; PROPERTY='C20'
NEEDS='a server that answers with a status other than 200 that is not an error by number, such as 300 or 304 or a redirect without a location'
BREAKS='such an answer is taken for the document that was asked for'
EDITS=[('fetchers.go','''	if resp.StatusCode != http.StatusOK {''','''	if resp.StatusCode >= http.StatusBadRequest {''')]
DEMO='''package chaff_test

import (
	"net/http"
	"net/http/httptest"
	"testing"

	chaff "github.com/ryanolee/go-chaff"
)

func TestPlantedDemo(t *testing.T) {
	for _, status := range []int{200, 300, 304, 306, 399, 404} {
		s := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			rw.WriteHeader(status)
			if status != 304 {
				rw.Write([]byte(`{"const":"served"}`))
			}
		}))
		g, err := chaff.ParseSchemaString(`{"type":"object","properties":{"a":{"$ref":"`+s.URL+`/x.json"}},"required":["a"]}`, &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}}})
		s.Close()
		failed := err != nil || g.Metadata.Errors.HasErrors()
		if failed != (status != 200) {
			t.Errorf("status %d: reported: %v", status, failed)
		}
	}
}
'''
