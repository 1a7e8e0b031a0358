package http

import (
	"errors"
	"io"
	"net/http"
	"os"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"
	"wiki2book/verifrt"
)

var errVerif = errors.New("injected failure")

type verifRequest struct {
	method, url, body, agent, kind string
}

// verifServer answers requests with any response and records the requests like a real server.
type verifServer struct {
	requests []verifRequest
	max      int // number of responses asking to slow down
	bodyMax  int
	log      []string

	// the last response
	transport bool
	status    int
	apiError  bool
	body      string
	cut       bool
	waits     []string // the requested times to wait
}

func (s *verifServer) Post(url, contentType string, body io.Reader) (*http.Response, error) {
	panic("not expected")
}

func (s *verifServer) Do(r *http.Request) (*http.Response, error) {
	s.log = append(s.log, "request")
	q := verifRequest{method: r.Method, url: r.URL.String(), agent: r.Header.Get("User-Agent"), kind: r.Header.Get("Content-Type")}
	if r.Body != nil { // as a real transport does
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		q.body = string(b)
	}
	s.requests = append(s.requests, q)

	if verifrt.Choice("transport error", 2) == 1 {
		s.transport = true
		return nil, errVerif
	}
	s.status = verifrt.Int("status", 100, 599)
	s.body, s.cut, s.apiError = "", false, false
	h := http.Header{}
	if s.status == 429 {
		verifrt.Assume(len(s.waits) < s.max)
		wait := verifWaits[verifrt.Choice("requested time", len(verifWaits))]
		if wait == "<" {
			wait = verifrt.Str("seconds", 1, "0123456789")
		}
		if wait != "" {
			h.Set("Retry-After", wait)
		}
		s.waits = append(s.waits, wait)
		s.body = "slow"
	} else if s.status == 200 {
		s.body = verifrt.StrMax("body", 0, s.bodyMax, "")
		s.cut = verifrt.Choice("body breaks off", 2) == 1
		if verifrt.Choice("api error", 2) == 1 {
			h.Set("mediawiki-api-error", "some-error")
			s.apiError = true
		}
	} else {
		s.body = "broken"
	}
	return &http.Response{StatusCode: s.status, Header: h, Body: &verifBody{data: []byte(s.body), cut: s.cut}}, nil
}

var verifWaits = []string{"", "<", "120", "soon"}

type verifBody struct {
	data []byte
	cut  bool
}

func (b *verifBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.cut {
			return 0, errVerif
		}
		return 0, io.EOF
	}
	n := copy(p[:1], b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *verifBody) Close() error { return nil }

func verifService() (*DefaultHttpService, *verifServer, *[]int) {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = "cache"
	config.Current.CacheMaxAge = 60
	config.Current.CacheEvictionStrategy = config.CacheEvictionStrategyNone
	os.RemoveAll("cache")
	os.MkdirAll("cache/.tmp", 0o755)
	os.MkdirAll("cache/html", 0o755)
	util.CurrentFilesystem = &util.OsFilesystem{}
	s := &verifServer{max: verifrt.Param("retries", 2), bodyMax: verifrt.Param("body", 2)}
	slept := &[]int{}
	sleepFunc = func(seconds int) {
		s.log = append(s.log, "sleep")
		*slept = append(*slept, seconds)
	}
	d := NewDefaultHttpService()
	d.httpClient = s
	return d, s, slept
}

func verifNumber(s string) (int, bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, len(s) > 0
}

// verifCheckRequests: identical requests, each but the last one followed by waiting the requested time.
func verifCheckRequests(s *verifServer, slept []int, want verifRequest) {
	for _, q := range s.requests {
		verifrt.Assert(q.method == want.method && q.url == want.url, "every request goes to the given address")
		verifrt.Assert(q.body == want.body, "every request carries the complete body")
		verifrt.Assert(q.agent != "" && q.agent == s.requests[0].agent && q.kind == want.kind, "every request has the same headers")
	}
	verifrt.Assert(len(slept) == len(s.waits), "there is one pause per response asking to slow down")
	verifrt.Assert(len(s.requests) == len(s.waits)+1, "only requests that shall be slowed down are repeated")
	for i, l := range s.log {
		verifrt.Assert((l == "sleep") == (i%2 == 1), "the pause comes before the next request")
	}
	for i, x := range s.waits {
		if n, ok := verifNumber(x); ok && i < len(slept) {
			verifrt.Assert(slept[i] == n, "the pause is as long as requested")
		} else if i < len(slept) {
			verifrt.Assert(slept[i] > 0, "there is a pause if no usable time is given")
		}
	}
}

func verifRead(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "-"
	}
	return "+" + string(b)
}

// VerifDownload: any sequence of responses, any state of the cache.
func VerifDownload() {
	d, s, slept := verifService()
	entry := cache.GetFilePathInCache("html", "f")
	before := "-"
	state := verifrt.Choice("cached", 3)
	if state > 0 {
		before = "+old"
		os.WriteFile(entry, []byte("old"), 0o644)
		t := time.Now()
		if state == 2 {
			t = t.Add(-2 * time.Hour)
		}
		os.Chtimes(entry, t, t)
	}
	path, fresh, err := d.DownloadAndCache("https://host/path?a=b", "html", "f")
	now := verifRead(entry)
	verifrt.Observe("entry", now)
	verifrt.ObserveBool("error", err != nil)

	if state == 1 {
		verifrt.Assert(len(s.requests) == 0, "a cached file is not requested again")
		verifrt.Assert(err == nil && !fresh && path == entry && now == before, "a cached file is returned")
		return
	}
	verifCheckRequests(s, *slept, verifRequest{method: "GET", url: "https://host/path?a=b"})
	ok := !s.transport && s.status == 200 && !s.apiError && !s.cut
	if ok {
		verifrt.Reach("success")
		verifrt.Assert(err == nil && fresh && path == entry, "a successful response is stored")
		verifrt.Assert(now == "+"+s.body, "exactly the body of the response is stored")
	} else {
		verifrt.Reach("failure")
		verifrt.Assert(err != nil, "everything but a complete successful response is an error")
		verifrt.Assert(now == "-", "nothing of a failed response is stored")
	}
}

// VerifPost: any request data, any sequence of responses.
func VerifPost() {
	d, s, slept := verifService()
	data := verifrt.StrMax("data", 0, 2, "")
	r, err := d.PostFormEncoded("https://host/post", data)
	verifCheckRequests(s, *slept, verifRequest{method: "POST", url: "https://host/post", body: data, kind: "application/x-www-form-urlencoded"})
	ok := !s.transport && s.status == 200 && !s.apiError
	verifrt.Assert((err == nil) == ok, "everything but a successful response is an error")
	if err != nil {
		return
	}
	verifrt.Assert(r != nil && r.StatusCode == 200, "the successful response is returned")
	b, rerr := io.ReadAll(r.Body)
	verifrt.Assert(string(b) == s.body && (rerr != nil) == s.cut, "the body of the response is returned")
	verifrt.Assert(strings.HasPrefix(s.requests[0].agent, "w") || s.requests[0].agent != "", "requests name their sender")
}

// VerifSender: any template of the user agent of up to k pieces.
func VerifSender() {
	d, s, slept := verifService()
	template, want := "", ""
	words := []string{"{{VERSION}}", "{{version}}", "a/1.0", " ", "{", "}}", "", "(b; c@d.e)", "+http://f"}
	for range verifrt.Int("pieces", 0, verifrt.Param("k", 3)) {
		w := words[verifrt.Choice("piece", len(words))]
		if w == "" {
			w = verifrt.Str("byte", 1, "aZ0%-_/;")
		}
		template += w
	}
	for rest := template; rest != ""; {
		if strings.HasPrefix(rest, "{{VERSION}}") {
			want += util.VERSION
			rest = rest[len("{{VERSION}}"):]
		} else {
			want += rest[:1]
			rest = rest[1:]
		}
	}
	config.Current.UserAgentTemplate = template
	request := verifRequest{method: "GET", url: "https://host/post"}
	if verifrt.Choice("method", 2) == 0 {
		d.DownloadAndCache("https://host/post", "html", "f")
	} else {
		request = verifRequest{method: "POST", url: "https://host/post", body: "x", kind: "application/x-www-form-urlencoded"}
		d.PostFormEncoded("https://host/post", "x")
	}
	for _, q := range s.requests {
		verifrt.Assert(q.agent == want, "every request names its sender as configured")
	}
	for i := range s.requests {
		s.requests[i].agent = "x"
	}
	verifCheckRequests(s, *slept, request)
	verifrt.Reach("sender")
}
