id = 'fetch-status'
property = 'P27'
needs = 'a server that answers with a status below 400 that is not 200, such as part of a file'
breaks = 'an answer such as 204 or 206 is kept as the file'
edits = [('file-util.go', 'if resp.StatusCode != http.StatusOK {', 'if resp.StatusCode >= http.StatusBadRequest {')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"io"
	"net/http"
	"strings"
	"testing"
	"github.com/sugarme/tokenizer"
)

type part struct{}

func (part) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 206, Status: "206 Partial Content", Header: http.Header{}, Body: io.NopCloser(strings.NewReader("half")), Request: r}, nil
}

func TestDemo(t *testing.T) {
	tokenizer.CachedDir = t.TempDir()
	http.DefaultTransport = part{}
	if p, err := tokenizer.CachedPath("org/model", "tokenizer.json"); err == nil {
		t.Fatalf("a part of a file is kept at %s", p)
	}
}
'''
