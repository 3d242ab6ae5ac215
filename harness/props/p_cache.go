package props

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sugarme/tokenizer"

	"verif/harness/core"
	"verif/harness/gen"
)

func init() {
	core.Register(&core.Prop{ID: "P27", Race: true, Quick: 1200, Thorough: 30000,
		Rule: "each case is a history of calls for model files, one at a time or at once, in a fresh cache folder, answered by a local server that records the requests and injects faults (refused or closed connections, wrong status, bodies cut off, redirects, garbage, slow answers), or by a local folder; returned paths and contents, the cache folder after every step and during downloads, and the requests seen are compared with what was served; non-trivial: a fault was injected or a file fetched from the network",
		Run:  fetches})
}

// site is what the local server answers with.
type site struct {
	mu     sync.Mutex
	files  map[string][]byte // by url path
	faults []string          // the next requests meet these
	slow   bool
	gzip   bool
	seen   []string
	hit    int // faults injected
	open   atomic.Int64
}

func (s *site) next(path string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, path)
	f := ""
	if len(s.faults) > 0 {
		f, s.faults = s.faults[0], s.faults[1:]
	}
	if f != "" {
		s.hit++
	}
	return f
}

func (s *site) requests() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.seen)
}

var (
	theSite   *site
	siteMu    sync.Mutex
	siteStart sync.Once
)

func curSite() *site {
	siteMu.Lock()
	defer siteMu.Unlock()
	return theSite
}

func setSite(s *site) {
	siteMu.Lock()
	defer siteMu.Unlock()
	theSite = s
}

// refuser fails requests before they reach the server.
type refuser struct{ next http.RoundTripper }

func (t refuser) RoundTrip(r *http.Request) (*http.Response, error) {
	s := curSite()
	if r.URL.Host != "huggingface.co" && r.Header.Get("X-Fault") == "" && !strings.HasPrefix(r.URL.Path, "/else") {
		return nil, fmt.Errorf("no route to %s", r.URL.Host)
	}
	f := s.next(r.URL.Path)
	switch f {
	case "refuse":
		return nil, errors.New("connection refused")
	case "timeout":
		return nil, context.DeadlineExceeded
	}
	r = r.Clone(r.Context())
	r.Header.Set("X-Fault", f)
	resp, err := t.next.RoundTrip(r)
	if err == nil {
		s.open.Add(1)
		resp.Body = &counted{ReadCloser: resp.Body, s: s}
	}
	return resp, err
}

// counted tells which responses were closed.
type counted struct {
	io.ReadCloser
	s    *site
	once sync.Once
}

func (b *counted) Close() error {
	b.once.Do(func() { b.s.open.Add(-1) })
	return b.ReadCloser.Close()
}

func startSite() {
	siteStart.Do(func() {
		srv := httptest.NewUnstartedServer(http.HandlerFunc(answer))
		srv.Config.ErrorLog = nil
		srv.StartTLS()
		addr := srv.Listener.Addr().String()
		http.DefaultTransport = refuser{&http.Transport{
			DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
				return (&net.Dialer{}).DialContext(ctx, "tcp", addr)
			},
			TLSClientConfig:   &tls.Config{InsecureSkipVerify: true},
			DisableKeepAlives: true,
		}}
	})
}

func answer(w http.ResponseWriter, r *http.Request) {
	s := curSite()
	body, ok := s.files[r.URL.Path]
	fault := r.Header.Get("X-Fault")
	send := func(b []byte) {
		if s.gzip && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			w.Header().Set("Content-Encoding", "gzip")
			var z bytes.Buffer
			g := gzip.NewWriter(&z)
			g.Write(b)
			g.Close()
			b = z.Bytes()
		} else if !s.slow {
			w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		}
		if !s.slow {
			w.Write(b)
			return
		}
		for len(b) > 0 {
			n := min(len(b), 1+len(b)/3)
			w.Write(b[:n])
			b = b[n:]
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			time.Sleep(time.Millisecond)
		}
	}
	hijack := func(what string) {
		h, ok := w.(http.Hijacker)
		if !ok {
			return
		}
		c, _, err := h.Hijack()
		if err != nil {
			return
		}
		c.Write([]byte(what))
		c.Close()
	}
	cut := len(body) / 2
	switch {
	case fault == "close":
		hijack("")
	case fault == "garbage":
		hijack("lorem ipsum\r\n\r\n")
	case strings.HasPrefix(fault, "status "):
		var code int
		fmt.Sscanf(fault, "status %d", &code)
		w.WriteHeader(code)
		if code != 204 && code != 304 {
			fmt.Fprintf(w, "{\"error\": %d}", code)
		}
	case fault == "partial":
		w.WriteHeader(206)
		w.Write(body[:cut])
	case fault == "short":
		hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body)+1, body[:cut]))
	case fault == "short by one":
		hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body)+1, body))
	case fault == "short at once":
		hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body)+1))
	case fault == "chunk cut":
		hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", max(cut, 1), body[:max(cut, min(1, len(body)))]))
	case fault == "loop":
		http.Redirect(w, r, "/else"+r.URL.Path, http.StatusFound)
	case fault == "away":
		http.Redirect(w, r, "/else/missing", http.StatusFound)
	case fault == "bad gzip":
		w.Header().Set("Content-Encoding", "gzip")
		w.Write([]byte("\x1f\x8b\x08 not gzip at all"))
	case strings.HasPrefix(r.URL.Path, "/else/redirected"):
		if b, ok := s.files[strings.TrimPrefix(r.URL.Path, "/else/redirected")]; ok {
			send(b)
			return
		}
		http.NotFound(w, r)
	case !ok:
		http.NotFound(w, r)
	case fault == "redirect": // no fault: the file is elsewhere
		http.Redirect(w, r, "/else/redirected"+r.URL.Path, http.StatusTemporaryRedirect)
	default:
		send(body)
	}
}

var netFaults = []string{"refuse", "timeout", "close", "garbage", "status 404", "status 500", "status 403", "status 401", "status 503", "status 429", "status 204", "status 304", "status 410", "partial", "short", "short by one", "short at once", "chunk cut", "loop", "away", "bad gzip"}

func fileBody(r *rand.Rand) []byte {
	n := gen.Pick(r, 0, 1, 2, 100, 5000, 70000)
	if r.Intn(80) == 0 {
		n = 3<<20 + r.Intn(4<<20)
	}
	b := make([]byte, n)
	r.Read(b)
	if n > 0 && r.Intn(2) == 0 {
		copy(b, `{"version":"1.0"}`)
	}
	return b
}

func fetches(c *core.C) {
	r := c.R
	startSite()
	s := &site{files: map[string][]byte{}, slow: r.Intn(4) == 0, gzip: r.Intn(4) == 0}
	setSite(s)
	root := filepath.Join(os.Getenv("VDRV_SCRATCH"), fmt.Sprintf("fetch-%d", c.Idx))
	cache := filepath.Join(root, "cache")
	if r.Intn(3) > 0 {
		os.MkdirAll(cache, 0o755)
	}
	os.MkdirAll(filepath.Join(root, "work"), 0o755)
	defer os.RemoveAll(root)
	wd, _ := os.Getwd()
	os.Chdir(filepath.Join(root, "work"))
	defer os.Chdir(wd)
	for _, k := range []string{"GO_TOKENIZER", "HOME"} {
		if old, ok := os.LookupEnv(k); ok {
			defer os.Setenv(k, old)
		}
	}
	first := ""
	os.Setenv("HOME", filepath.Join(root, "home"))
	switch r.Intn(5) {
	case 0, 1:
		first = "cache set by GO_TOKENIZER"
		os.Setenv("GO_TOKENIZER", cache)
		tokenizer.CachedDir = "NOT_SETTING"
	case 2:
		first = "cache in HOME"
		os.Unsetenv("GO_TOKENIZER")
		cache = filepath.Join(root, "home", ".cache", "tokenizer")
		tokenizer.CachedDir = "NOT_SETTING"
	default:
		first = "cache set by CachedDir"
		tokenizer.CachedDir = cache
	}

	models := []string{"bert", "org/model", "org/model-2"}
	names := []string{"tokenizer.json", "vocab.txt", "sub/config.json", "merges.txt"}
	type key struct{ m, n string }
	want := map[key][]byte{} // what the cache must give
	local := map[key][]byte{}
	hist := []string{first}
	note := func(f string, a ...any) {
		hist = append(hist, fmt.Sprintf(f, a...))
		c.Detail("%s", strings.Join(hist, " ; "))
	}
	desc := func() string { return strings.Join(hist, " ; ") }
	url := func(k key) string { return "/" + k.m + "/resolve/main/" + k.n }
	short := func(b []byte) string { return fmt.Sprintf("%d bytes %.12q", len(b), b) }
	checkCache := func() bool {
		// no file that a later call would take for another
		for _, m := range append(models, filepath.Join(root, "local"), "local") {
			for _, n := range names {
				k := key{m, n}
				b, err := os.ReadFile(filepath.Join(cache, m, n))
				w, has := want[k]
				if has && (err != nil || !bytes.Equal(b, w)) {
					c.Fail("cache", "%s of %s is %s (%v) in the cache, not %s: %s", n, m, short(b), err, short(w), desc())
					return false
				}
				if !has && err == nil {
					c.Fail("broken", "%s of %s is in the cache (%s) after a failure: %s", n, m, short(b), desc())
					return false
				}
			}
		}
		return true
	}
	nontrivial := false
	for step := 2 + r.Intn(6); step > 0 && !c.Failed(); step-- {
		k := key{gen.Pick(r, models...), gen.Pick(r, names...)}
		if len(want)+len(local) > 0 && r.Intn(3) == 0 {
			// one asked for before
			var ks []key
			for x := range want {
				ks = append(ks, x)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].m+" "+ks[i].n < ks[j].m+" "+ks[j].n })
			if len(ks) > 0 {
				k = gen.Pick(r, ks...)
			}
		}
		isLocal := r.Intn(6) == 0
		if isLocal {
			k.m = gen.Pick(r, filepath.Join(root, "local"), "local")
			dir := k.m
			if dir == "local" {
				dir = filepath.Join(root, "work", "local")
			}
			f := filepath.Join(dir, k.n)
			os.MkdirAll(filepath.Dir(f), 0o755)
			if r.Intn(6) == 0 {
				os.RemoveAll(f)
				os.MkdirAll(f, 0o755)
				delete(local, k)
				note("local folder in the place of %s", f)
			} else if _, err := os.Stat(f); err != nil || r.Intn(2) == 0 {
				os.RemoveAll(f)
				local[k] = fileBody(r)
				if r.Intn(3) == 0 {
					// through a link, as model folders often are
					b := filepath.Join(root, fmt.Sprintf("blob-%d", len(hist)))
					os.WriteFile(b, local[k], 0o644)
					os.Symlink(b, f)
					note("linked")
				} else {
					os.WriteFile(f, local[k], 0o644)
				}
				note("local %s of %d bytes", f, len(local[k]))
			}
		} else if _, ok := s.files[url(k)]; !ok && r.Intn(5) > 0 || r.Intn(6) == 0 {
			s.mu.Lock()
			s.files[url(k)] = fileBody(r)
			s.mu.Unlock()
			note("serving %s of %d bytes", url(k), len(s.files[url(k)]))
		}
		served, exists := s.files[url(k)]
		if isLocal || strings.HasPrefix(k.m, root) || k.m == "local" {
			served, exists = local[k]
		}
		s.mu.Lock()
		s.faults = nil
		for i := r.Intn(4); i > 0 && r.Intn(3) > 0; i-- {
			if r.Intn(5) == 0 {
				s.faults = append(s.faults, gen.Pick(r, "", "redirect"))
			} else {
				s.faults = append(s.faults, gen.Pick(r, netFaults...))
			}
		}
		if len(s.faults) > 0 && r.Intn(2) == 0 {
			// all requests of the call
			for i := 0; i < 20; i++ {
				s.faults = append(s.faults, s.faults[0])
			}
		}
		planned := strings.Join(s.faults[:min(3, len(s.faults))], ",")
		s.hit = 0
		s.mu.Unlock()
		if r.Intn(6) == 0 {
			// left over by a crash
			f := filepath.Join(cache, k.m, k.n+".tmp")
			os.MkdirAll(filepath.Dir(f), 0o755)
			os.WriteFile(f, bytes.Repeat([]byte("old"), r.Intn(40000)), 0o644)
			note("a partial file of an earlier crash")
		}
		before := s.requests()
		held, cached := want[k]
		n := 1
		if r.Intn(4) == 0 {
			n = 2 + r.Intn(3)
		}
		note("fetch %s %s x%d faults [%s]", k.m, k.n, n, planned)
		stop := make(chan struct{})
		var watched sync.WaitGroup
		var odd string
		if n > 1 || s.slow {
			watched.Add(1)
			go func() {
				defer watched.Done()
				for {
					if b, err := os.ReadFile(filepath.Join(cache, k.m, k.n)); err == nil {
						w := served
						if cached {
							w = held
						}
						if !bytes.Equal(b, w) && odd == "" {
							odd = short(b)
						}
					}
					select {
					case <-stop:
						return
					default:
						time.Sleep(100 * time.Microsecond)
					}
				}
			}()
		}
		type res struct {
			path string
			err  error
			b    []byte
			rerr error
		}
		out := make([]res, n)
		var wg sync.WaitGroup
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out[i].path, out[i].err = tokenizer.CachedPath(k.m, k.n)
				if out[i].err == nil {
					out[i].b, out[i].rerr = os.ReadFile(out[i].path)
				}
			}()
		}
		wg.Wait()
		close(stop)
		watched.Wait()
		made := s.requests() - before
		if odd != "" {
			c.Fail("partial", "a file of %s was in the cache while it was fetched (%s): %s", odd, short(served), desc())
			return
		}
		if made > 0 || s.hit > 0 {
			nontrivial = true
		}
		c.NoteN("faults injected", s.hit)
		if n > 1 {
			c.Note("fetched at once")
		}
		for _, o := range out {
			if cached {
				c.Note("from the cache")
				if made > 0 {
					c.Fail("request", "%d requests for a file in the cache: %s", made, desc())
					return
				}
				if o.err != nil || !bytes.Equal(o.b, held) {
					c.Fail("cached", "a file in the cache gives %s (%v %v), not %s: %s", short(o.b), o.err, o.rerr, short(held), desc())
					return
				}
			}
			switch {
			case o.err == nil:
				if !cached && (!exists || o.rerr != nil || !bytes.Equal(o.b, served)) {
					c.Fail("content", "no error, but %s (%v), not %s: %s", short(o.b), o.rerr, short(served), desc())
					return
				}
				if rel, err := filepath.Rel(cache, o.path); err != nil || strings.HasPrefix(rel, "..") {
					c.Fail("path", "%s is not in the cache: %s", o.path, desc())
					return
				}
				if !cached {
					want[k] = served
					c.Note("fetched")
				}
			case o.path != "":
				c.Fail("path", "both an error and a path: %s", desc())
				return
			case exists && s.hit == 0 && n == 1:
				c.Fail("error", "%v although nothing failed: %s", o.err, desc())
				return
			case exists && s.hit == 0:
				c.Fail("at-once", "%v although nothing failed: %s", o.err, desc())
				return
			default:
				c.Note("errors")
			}
		}
		checkCache()
		if n := s.open.Load(); n != 0 {
			c.Fail("open", "%d responses were not closed: %s", n, desc())
			return
		}
	}
	c.Eval(desc(), nontrivial)
	c.Sample("history", desc())
}
