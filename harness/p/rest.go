package p

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"fmt"
	goio "io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/rest"

	"verif/h"
)

const (
	hexs  = "0123456789abcdefABCDEF"
	lower = "abcdefghijklmnopqrstuvwxyz"
)

// isUUID is written without regular expressions.
func isUUID(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if s[i] != '-' {
				return false
			}
		} else if !strings.ContainsRune(hexs, rune(s[i])) {
			return false
		}
	}
	return true
}

func genUUID(R *rand.Rand) string {
	b := make([]byte, 36)
	for i := range b {
		b[i] = hexs[R.Intn(len(hexs))]
	}
	for _, i := range []int{8, 13, 18, 23} {
		b[i] = '-'
	}
	switch R.Intn(12) { // sometimes nearly a UUID
	case 0:
		b[R.Intn(36)] = "g-/x_ "[R.Intn(6)]
	case 1:
		return string(b[:35])
	case 2:
		return string(b) + "0"
	case 3:
		return strings.ToUpper(string(b))
	case 4:
		return strings.ToLower(string(b))
	}
	return string(b)
}

// seg is one path segment of a route: a pattern, its own matcher, and the number of groups it captures.
type seg struct {
	pat   string
	match func(s string) ([]string, bool)
	gen   func(R *rand.Rand) string
}

func litSeg(s string) seg {
	return seg{s, func(x string) ([]string, bool) { return nil, x == s }, func(*rand.Rand) string { return s }}
}

func all(s, set string) bool {
	for _, r := range s {
		if !strings.ContainsRune(set, r) {
			return false
		}
	}
	return s != ""
}

var segs = []seg{
	litSeg("customer"), litSeg("a"), litSeg("b"), litSeg("CUSTOMER"), litSeg("é"), litSeg("x y"),
	{rest.UUIDGroup, func(s string) ([]string, bool) { return []string{s}, isUUID(s) }, genUUID},
	{"([0-9]+)", func(s string) ([]string, bool) { return []string{s}, all(s, "0123456789") }, func(R *rand.Rand) string { return fmt.Sprint(R.Intn(100000)) }},
	{"[0-9]+", func(s string) ([]string, bool) { return nil, all(s, "0123456789") }, func(R *rand.Rand) string { return fmt.Sprint(R.Intn(9)) }},
	{"([^/]+)", func(s string) ([]string, bool) { return []string{s}, s != "" }, func(R *rand.Rand) string {
		return []string{"a", "customer", "12", "é", "x.y", "%", "0-1"}[R.Intn(7)]
	}},
	{"(a|customer)", func(s string) ([]string, bool) { return []string{s}, s == "a" || s == "customer" }, func(R *rand.Rand) string { return []string{"a", "customer", "b"}[R.Intn(3)] }},
	{"([a-z]*)", func(s string) ([]string, bool) { return []string{s}, s == "" || all(s, lower) }, func(R *rand.Rand) string { return []string{"", "abc", "a", "A"}[R.Intn(4)] }},
	{"(a)?b", func(s string) ([]string, bool) {
		return []string{strings.TrimSuffix(s, "b")}, s == "ab" || s == "b"
	}, func(R *rand.Rand) string { return []string{"ab", "b", "a"}[R.Intn(3)] }},
	{"([a-z]+)-([0-9]+)", func(s string) ([]string, bool) {
		p := strings.Split(s, "-")
		return p, len(p) == 2 && all(p[0], lower) && all(p[1], "0123456789")
	}, func(R *rand.Rand) string { return []string{"ab-12", "x-1", "x-", "-1"}[R.Intn(4)] }},
}

// route is a registered route with a matcher of the complete path that does not use its regular expression.
type route struct {
	method, pattern string
	segs            []seg
	re              *regexp.Regexp // for unanchored patterns
	id              int
}

func (r *route) match(path string) ([]string, bool) {
	if r.re != nil {
		m := r.re.FindStringSubmatch(path)
		return m, m != nil
	}
	if !strings.HasPrefix(path, "/") {
		return nil, false
	}
	ps := strings.Split(path[1:], "/")
	if len(ps) != len(r.segs) {
		return nil, false
	}
	res := []string{path}
	for i, s := range r.segs {
		g, ok := s.match(ps[i])
		if !ok {
			return nil, false
		}
		res = append(res, g...)
	}
	return res, true
}

var methods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "get", "CUSTOM"}

func genRoute(R *rand.Rand, id int) *route {
	r := &route{method: methods[R.Intn(len(methods))], id: id}
	if R.Intn(2) == 0 {
		r.method = "GET"
	}
	if R.Intn(6) == 0 { // unanchored or odd
		r.pattern = []string{"/a", "customer", "^/", "/$", ".*", "^/(.*)$", "(?i)customer/?(.*)", "^/(a)|(b)$", "a(.)?", "^$", "é", "$", "x*", "(|a)", "^(a)?"}[R.Intn(15)]
		r.re = regexp.MustCompile(r.pattern)
		return r
	}
	r.pattern = "^"
	for n := 1 + R.Intn(3); n > 0; n-- {
		s := segs[R.Intn(len(segs))]
		r.segs = append(r.segs, s)
		r.pattern += "/" + s.pat
	}
	r.pattern += "$"
	return r
}

func genURL(R *rand.Rand, routes []*route) string {
	var p string
	if len(routes) > 0 && R.Intn(8) > 0 {
		r := routes[R.Intn(len(routes))]
		for _, s := range r.segs {
			p += "/" + s.gen(R)
		}
		if p == "" {
			p = "/a"
		}
	} else {
		for n := 1 + R.Intn(3); n > 0; n-- {
			p += "/" + segs[R.Intn(len(segs))].gen(R)
		}
	}
	switch R.Intn(12) {
	case 0:
		p += "/"
	case 1:
		p += "/a"
	case 2:
		p = strings.Replace(p, "/", "//", 1)
	case 3:
		p = strings.ToUpper(p)
	case 4:
		p += "\n"
	case 5:
		p = "/"
	case 6:
		p = ""
	}
	return p
}

// expect returns what the routes do with a request: a route and its parts, or a status.
func expect(routes []*route, method, path string) (*route, []string, int) {
	status := http.StatusNotFound
	for _, r := range routes {
		if parts, ok := r.match(path); ok {
			if r.method == method {
				return r, parts, 200
			}
			status = http.StatusMethodNotAllowed
		}
	}
	return nil, nil, status
}

type served struct {
	id    int
	parts []string
	r     *http.Request
}

type objHandler struct {
	id     int
	out    *[]served
	during func(w http.ResponseWriter)
}

func (o *objHandler) Serve(w http.ResponseWriter, r *http.Request, parts []string) {
	*o.out = append(*o.out, served{o.id, parts, r})
	if o.during != nil {
		o.during(w)
	}
	w.WriteHeader(200 + o.id%50)
	fmt.Fprintf(w, "handler %d", o.id)
}

func routing(c *h.Ctx) {
	var (
		R      = c.R
		mux    rest.ServeMux
		routes []*route
		out    []served
		log    []string
		during func(w http.ResponseWriter) // called by the handler that serves a request, if set
		asked  [][2]string
	)
	duringFn := func(w http.ResponseWriter) {
		if f := during; f != nil {
			during = nil
			f(w)
		}
	}
	steps := 4 + R.Intn(20)
	if R.Intn(100) == 0 {
		steps = R.Intn(300)
	}
	for step := 0; step < steps; step++ {
		switch k := R.Intn(10); {
		case k < 4 || step == 0 && k < 8:
			r := genRoute(R, len(routes))
			var hd rest.Handler = &objHandler{r.id, &out, duringFn}
			if R.Intn(2) == 0 {
				o := &objHandler{r.id, &out, duringFn}
				hd = rest.HandlerFunc(o.Serve)
			}
			log = append(log, r.method+" "+r.pattern)
			if R.Intn(2) == 0 {
				err := mux.Handle(r.method, r.pattern, hd)
				c.Check(err == nil, "register-refused", "Handle(%q, %q) = %v", r.method, r.pattern, err)
			} else {
				c.NoPanic("register-refused", "MustHandle", func() { mux.MustHandle(r.method, r.pattern, hd) })
			}
			routes = append(routes, r)
			c.Ev("routes registered")
			continue
		case k < 5: // refused registrations change nothing
			m, p, hd := "GET", "^/a$", rest.Handler(&objHandler{9999, &out, nil})
			switch R.Intn(4) {
			case 0:
				m = ""
			case 1:
				p = ""
			case 2:
				hd = nil
			default:
				p = []string{"(", "[", "a**", "(?P<x", `\8`, "^/(a$", "[z-a]", "*"}[R.Intn(8)]
			}
			err := mux.Handle(m, p, hd)
			c.Check(err != nil, "register-invalid", "Handle(%q, %q, nil=%v) accepted", m, p, hd == nil)
			_, did := h.Panics(func() { mux.MustHandle(m, p, hd) })
			c.Check(did, "register-invalid-must", "MustHandle(%q, %q, nil=%v) did not panic", m, p, hd == nil)
			c.Ev("routes refused")
		}
		method, path := methods[R.Intn(len(methods))], genURL(R, routes)
		if len(routes) > 0 && R.Intn(3) > 0 {
			method = routes[R.Intn(len(routes))].method
		}
		if len(asked) > 0 && R.Intn(3) == 0 {
			// ask again, routes may have been added since
			k := asked[R.Intn(len(asked))]
			method, path = k[0], k[1]
			c.Ev("requests asked again")
		}
		asked = append(asked, [2]string{method, path})
		req := genRequest(R, method, path)
		rec := httptest.NewRecorder()
		out = nil
		if want, _, _ := expect(routes, method, path); want != nil && R.Intn(8) == 0 {
			// the handler panics, which is for the caller to see, or serves another request itself
			desc := fmt.Sprintf("%s %q with routes %q", method, path, log)
			if R.Intn(2) == 0 {
				during = func(http.ResponseWriter) { panic(boom(step)) }
				v, did := h.Panics(func() { mux.ServeHTTP(rec, req) })
				c.Check(did && v == any(boom(step)) && len(out) == 1 && out[0].id == want.id, "handler-panic", "%s: the handler panics; ServeHTTP panicked=%v with %v, served %+v", desc, did, v, brief(out))
				c.Ev("handlers that panic")
			} else {
				m2, p2 := methods[R.Intn(len(methods))], genURL(R, routes)
				rec2 := httptest.NewRecorder()
				want2, parts2, status2 := expect(routes, m2, p2)
				during = func(http.ResponseWriter) { mux.ServeHTTP(rec2, genRequest(R, m2, p2)) }
				mux.ServeHTTP(rec, req)
				ok := rec.Code == 200+want.id%50 && rec.Body.String() == fmt.Sprintf("handler %d", want.id) && len(out) > 0 && out[0].id == want.id
				if want2 != nil {
					ok = ok && len(out) == 2 && out[1].id == want2.id && fmt.Sprintf("%q", out[1].parts) == fmt.Sprintf("%q", parts2) && rec2.Code == 200+want2.id%50
				} else {
					ok = ok && len(out) == 1 && rec2.Code == status2
				}
				c.Check(ok, "nested-serve", "%s: the handler serves %s %q: status %d, inner status %d, served %+v", desc, m2, p2, rec.Code, rec2.Code, brief(out))
				c.Ev("handlers that serve another request")
			}
			during, out = nil, nil
			req, rec = genRequest(R, method, path), httptest.NewRecorder()
		}
		if !c.NoPanic("serve-panic", fmt.Sprintf("%s %q with routes %q", method, path, log), func() { mux.ServeHTTP(rec, req) }) {
			return
		}
		want, parts, status := expect(routes, method, path)
		c.Ev("requests")
		desc := fmt.Sprintf("%s %q with routes %q", method, path, log)
		body := rec.Body.String()
		if want != nil {
			ok := len(out) == 1 && out[0].id == want.id && fmt.Sprintf("%q", out[0].parts) == fmt.Sprintf("%q", parts) && out[0].r == req
			c.Check(ok, "route", "%s: served %+v, want route %d with parts %q", desc, brief(out), want.id, parts)
			c.Check(rec.Code == 200+want.id%50 && body == fmt.Sprintf("handler %d", want.id), "route-response", "%s: status %d body %q", desc, rec.Code, body)
			c.Ev("requests routed")
		} else {
			c.Check(len(out) == 0, "route-none", "%s: served %+v, want status %d", desc, brief(out), status)
			msg := rest.NotFoundMsg
			if status == http.StatusMethodNotAllowed {
				msg = rest.MethodNotAllowedMsg
			}
			c.Check(rec.Code == status && strings.TrimSpace(body) == msg, "route-status", "%s: status %d body %q, want %d", desc, rec.Code, body, status)
			c.Ev(fmt.Sprintf("requests %d", status))
		}
		c.Obs(method, path, status, want != nil && len(parts) > 0, len(routes))
		c.Sample("%s => %d", desc, rec.Code)
	}
}

// genRequest makes a request of which only the method and the (decoded) path decide the route.
func genRequest(R *rand.Rand, method, path string) *http.Request {
	req := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: "q=/customer"}, Header: http.Header{}}
	if R.Intn(3) == 0 {
		// the path as the client wrote it: any byte may be escaped
		var raw strings.Builder
		all := R.Intn(2) == 0
		for i := 0; i < len(path); i++ {
			b := path[i]
			if plain := b == '/' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'; plain && (!all || R.Intn(3) > 0) && R.Intn(6) > 0 {
				raw.WriteByte(b)
			} else {
				fmt.Fprintf(&raw, []string{"%%%02X", "%%%02x"}[R.Intn(2)], b)
			}
		}
		req.URL.RawPath = raw.String()
	}
	if R.Intn(3) == 0 {
		u := req.URL
		u.Scheme, u.Host, u.Fragment, u.RawQuery = "http", "customer.example:80", "/customer", ""
		u.User, u.ForceQuery = url.User("u"), true
		req.Host, req.RequestURI, req.RemoteAddr, req.Proto = "other/customer", "/other?x", "1.2.3.4:5", "HTTP/1.0"
		m := methods[R.Intn(len(methods))]
		for _, k := range []string{"X-HTTP-Method-Override", "X-Original-URL", "X-Rewrite-URL", "X-Forwarded-Prefix", "Access-Control-Request-Method"} {
			req.Header.Set(k, []string{m, "/customer"}[R.Intn(2)])
		}
		req.Form = url.Values{"_method": {m}}
	}
	return req
}

func brief(out []served) (res []string) {
	for _, s := range out {
		res = append(res, fmt.Sprintf("route %d %q", s.id, s.parts))
	}
	return
}

// restConcurrent registers routes while requests are being served.
func restConcurrent(c *h.Ctx, overHTTP bool) {
	var (
		mux     rest.ServeMux
		clock   int64
		mu      sync.Mutex
		fails   []string
		nRoutes = 24
		began   = make([]int64, nRoutes) // clock before Handle
		done    = make([]int64, nRoutes) // clock after Handle
		wg      sync.WaitGroup
		stop    int64
		served  int64
		early   int64
		routed  int64
		order   string
	)
	fail := func(f string, a ...any) {
		mu.Lock()
		fails = append(fails, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	seed := c.R.Int63()
	var srv *httptest.Server
	if overHTTP {
		srv = httptest.NewServer(&mux)
		defer srv.Close()
	}
	do := func(method, path string) (int, string) {
		if !overHTTP {
			rec := httptest.NewRecorder()
			mux.ServeHTTP(rec, httptest.NewRequest(method, path, nil))
			return rec.Code, rec.Body.String()
		}
		req, _ := http.NewRequest(method, srv.URL+path, nil)
		resp, err := srv.Client().Do(req)
		if err != nil {
			return -1, err.Error()
		}
		defer resp.Body.Close()
		b, _ := goio.ReadAll(resp.Body)
		return resp.StatusCode, string(b)
	}
	// route i: /r<i>/(...), and everything also matches the last, catch all, route of the same method "ANY"
	handler := func(name string) rest.Handler {
		return rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) {
			fmt.Fprintf(w, "%s %s", name, strings.Join(parts, "|"))
		})
	}
	registrars := 1 + c.R.Intn(3)
	readers := 2 + c.R.Intn(5)
	rereg := c.R.Intn(2) == 0
	for g := 0; g < registrars; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			R := rand.New(rand.NewSource(seed + int64(g)))
			for i := g; i < nRoutes; i += registrars {
				if R.Intn(3) == 0 {
					for k := R.Intn(2000); k > 0; k-- {
						_ = atomic.LoadInt64(&clock)
					}
				}
				i := i
				atomic.StoreInt64(&began[i], tick())
				if rereg && i%5 == 4 {
					// register from within a handler that is serving a request
					if err := mux.Handle("REG", fmt.Sprintf("^/reg%d$", i), rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, _ []string) {
						mux.MustHandle("GET", fmt.Sprintf("^/r%d/([a-z0-9-]+)$", i), handler(fmt.Sprint("h", i)))
					})); err != nil {
						fail("Handle: %v", err)
					}
					if code, _ := do("REG", fmt.Sprintf("/reg%d", i)); code != 200 {
						fail("REG /reg%d: %d", i, code)
					}
				} else if err := mux.Handle("GET", fmt.Sprintf("^/r%d/([a-z0-9-]+)$", i), handler(fmt.Sprint("h", i))); err != nil {
					fail("Handle: %v", err)
				}
				// a second route for the same path, registered later, must never win
				if i%3 == 0 {
					mux.MustHandle("GET", fmt.Sprintf("^/r%d/([a-z0-9-]+)$", i), handler(fmt.Sprint("same", i)))
				}
				mux.MustHandle("GET", fmt.Sprintf("^/r%d/.*$", i), handler(fmt.Sprint("later", i)))
				atomic.StoreInt64(&done[i], tick())
			}
		}()
	}
	// requests whose handlers panic, and requests whose handlers wait for each other and for a registration
	mux.MustHandle("BOOM", "^/boom$", rest.HandlerFunc(func(http.ResponseWriter, *http.Request, []string) { panic(http.ErrAbortHandler) }))
	meet := []chan int{make(chan int), make(chan int)}
	mux.MustHandle("MEET", "^/meet/([01])$", rest.HandlerFunc(func(w http.ResponseWriter, _ *http.Request, parts []string) {
		if parts[1] == "0" {
			mux.MustHandle("MEET", "^/met$", handler("met"))
			meet[0] <- 1
			<-meet[1]
		} else {
			<-meet[0]
			meet[1] <- 1
		}
		fmt.Fprint(w, "met")
	}))
	var rg sync.WaitGroup
	for k := 0; k < 3; k++ {
		k := k
		rg.Add(1)
		go func() {
			defer rg.Done()
			if k == 2 {
				h.Panics(func() { do("BOOM", "/boom") })
			} else if code, body := do("MEET", fmt.Sprintf("/meet/%d", k)); code != 200 || body != "met" {
				fail("MEET /meet/%d: %d %q", k, code, body)
			}
		}()
	}
	for g := 0; g < readers; g++ {
		g := g
		rg.Add(1)
		go func() {
			defer rg.Done()
			R := rand.New(rand.NewSource(seed - int64(g) - 1))
			for n := 0; n < 2000 && (atomic.LoadInt64(&stop) == 0 || n < 20); n++ {
				i := R.Intn(nRoutes)
				uniq := fmt.Sprintf("q-%d-%d", g, n)
				path := fmt.Sprintf("/r%d/%s", i, uniq)
				method := "GET"
				if R.Intn(8) == 0 {
					method = "PUT"
				}
				before := tick()
				code, body := do(method, path)
				after := tick()
				d, b := atomic.LoadInt64(&done[i]), atomic.LoadInt64(&began[i])
				must := d != 0 && d < before
				cannot := b == 0 || b > after
				atomic.AddInt64(&served, 1)
				want := fmt.Sprintf("h%d %s|%s", i, path, uniq)
				switch {
				case method == "PUT" && code == 405 && !cannot:
				case method == "PUT" && code == 404 && !must:
				case method == "GET" && code == 200 && body == want && !cannot:
					atomic.AddInt64(&routed, 1)
				case method == "GET" && code == 404 && !must:
					atomic.AddInt64(&early, 1)
				default:
					fail("%s %s (registered before=%v, not yet begun=%v): status %d body %q", method, path, must, cannot, code, body)
				}
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt64(&stop, 1)
	rg.Wait()
	if code, body := do("MEET", "/met"); code != 200 || body != "met /met" {
		fail("route met lost: %d %q", code, body)
	}
	// no registration was lost
	for i := 0; i < nRoutes; i++ {
		if code, body := do("GET", fmt.Sprintf("/r%d/x", i)); code != 200 || body != fmt.Sprintf("h%d /r%d/x|x", i, i) {
			fail("route %d lost: GET gives %d %q", i, code, body)
		}
	}
	for i := 0; i < nRoutes; i++ {
		order += fmt.Sprint(began[i] < done[(i+1)%nRoutes])
	}
	if len(fails) > 0 {
		c.Fail("concurrent", "%d routes, %d registrars, %d clients, over HTTP %v: %s (%d failures)", nRoutes, registrars, readers, overHTTP, fails[0], len(fails))
	}
	c.EvN("concurrent requests", int(served))
	c.EvN("requests routed while registering", int(routed))
	c.EvN("requests not found before registration", int(early))
	c.Obs(seed, served, routed, early, order)
	c.Sample("registrars=%d clients=%d http=%v requests=%d routed=%d notfound=%d", registrars, readers, overHTTP, served, routed, early)
}

// restHandoff registers routes one at a time, and asks for each before and after, from several threads.
func restHandoff(c *h.Ctx) {
	var (
		R     = c.R
		mux   rest.ServeMux
		n     = 1 + R.Intn(12)
		perm  = R.Perm(n)
		fails sync.Map
		have  = map[int]bool{}
	)
	ask := func(when string) {
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < n; k++ {
					for _, method := range []string{"GET", "PUT"} {
						i := (k + g) % n
						rec := httptest.NewRecorder()
						mux.ServeHTTP(rec, httptest.NewRequest(method, fmt.Sprintf("/r%d/x", i), nil))
						want := http.StatusNotFound
						if have[i] {
							if want = 200; method == "PUT" {
								want = http.StatusMethodNotAllowed
							}
						}
						if rec.Code != want || want == 200 && rec.Body.String() != fmt.Sprint("h", i) {
							fails.Store(fmt.Sprintf("%s: %s /r%d/x: status %d body %q, want %d", when, method, i, rec.Code, rec.Body, want), true)
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	for s, i := range perm {
		if s == 0 || R.Intn(4) > 0 {
			ask(fmt.Sprintf("with routes %v", perm[:s]))
		}
		i := i
		done := make(chan bool)
		go func() {
			mux.MustHandle("GET", fmt.Sprintf("^/r%d/x$", i), rest.HandlerFunc(func(w http.ResponseWriter, _ *http.Request, _ []string) { fmt.Fprint(w, "h", i) }))
			close(done)
		}()
		<-done
		have[i] = true
	}
	ask(fmt.Sprintf("with routes %v", perm))
	fails.Range(func(k, _ any) bool {
		c.Fail("handoff", "%d routes registered in the order %v; %s", n, perm, k)
		return false
	})
	c.EvN("requests before and after a registration", 6*n*n)
	c.Obs("handoff", n, perm)
}

type bodyReader struct {
	goio.Reader
	closed int
}

func (b *bodyReader) Close() error { b.closed++; return nil }

func gz(R *rand.Rand, data []byte) []byte {
	var buf bytes.Buffer
	for {
		w, _ := gzip.NewWriterLevel(&buf, -1+R.Intn(11))
		if R.Intn(3) == 0 {
			w.Name, w.Comment, w.Extra = "name", "comment", []byte{1, 2}
		}
		cut := len(data)
		if R.Intn(4) == 0 {
			cut = R.Intn(len(data) + 1)
		}
		w.Write(data[:cut])
		if R.Intn(3) == 0 {
			w.Flush()
		}
		w.Close()
		data = data[cut:]
		if len(data) == 0 {
			return buf.Bytes()
		}
	}
}

func newReq(R *rand.Rand, hdr, val string, body goio.Reader) (*http.Request, *bodyReader) {
	b := &bodyReader{Reader: body}
	r := httptest.NewRequest("POST", "/x", nil)
	r.Body = b
	// as a server does, the length is unknown or that of the body
	r.ContentLength = -1
	if R.Intn(2) == 0 {
		switch t := body.(type) {
		case *faultReader:
			r.ContentLength = int64(len(t.data))
		case *bytes.Buffer:
			r.ContentLength = int64(t.Len())
		}
	}
	if hdr != "" {
		r.Header.Set([]string{hdr, strings.ToLower(hdr), strings.ToUpper(hdr)}[R.Intn(3)], val)
	}
	return r, b
}

func contentGzip(c *h.Ctx) {
	R := c.R
	data := make([]byte, []int{R.Intn(5000), R.Intn(5000), R.Intn(50), R.Intn(5000 + 300000*(1-min(1, R.Intn(30))))}[R.Intn(4)])
	for i, w := 0, 1+R.Intn(256); i < len(data); i++ {
		data[i] = byte(R.Intn(w))
	}
	var (
		val  = []string{"gzip", "gzip", "gzip", "", "identity", "deflate", "br", "-"}[R.Intn(8)]
		hdr  = "Accept-Encoding"
		enc  = gz(R, data)
		kind = "whole"
	)
	if val == "-" {
		hdr = ""
	}
	if val != "gzip" {
		f := newFaultReader(R, enc)
		r, b := newReq(R, hdr, val, f)
		rd := rest.AcceptGzip(r)
		got, err := goio.ReadAll(rd)
		wantErr := f.err
		if wantErr == goio.EOF {
			wantErr = nil
		}
		c.Check(bytes.Equal(got, enc) && err == wantErr, "gzip-asis", "Accept-Encoding %q: %d bytes of %d, error %v", val, len(got), len(enc), err)
		c.Check(r.Body == goio.ReadCloser(b), "gzip-body", "the body was replaced")
		c.Ev("bodies passed through")
		c.Obs("asis", val, len(enc), f.script())
		return
	}
	if R.Intn(12) == 0 {
		// headers that may or may not be taken as gzip: unchanged, decompressed or an error, but no other data
		val = []string{"gzip, identity", "identity, gzip", "GZIP", "gzip;q=1", "x-gzip", "gzip,deflate", "*", "gzip\t", "notgzip"}[R.Intn(9)]
		body := enc
		if R.Intn(2) == 0 {
			body = data
		}
		f := newFaultReader(R, body)
		r, _ := newReq(R, hdr, val, f)
		c.NoPanic("gzip-panic", "AcceptGzip of "+val, func() {
			got, err := goio.ReadAll(rest.AcceptGzip(r))
			c.Check(err != nil || (f.err == goio.EOF && (bytes.Equal(got, body) || bytes.Equal(got, data))), "gzip-other", "Accept-Encoding %q: %d bytes of %d, no error", val, len(got), len(body))
		})
		c.Ev("other encoding headers")
		return
	}
	f := newFaultReader(R, enc)
	switch R.Intn(5) {
	case 0:
		kind = "truncated"
		f.data = f.data[:R.Intn(len(f.data))]
	case 1:
		kind = "flipped"
		f.data[R.Intn(len(f.data))] ^= 1 << R.Intn(8)
	case 2:
		kind = "garbage"
		f.data = genBytes(R)
	case 3:
		kind = "trailing"
		f.data = append(f.data, "garbage"...)
	}
	input := append([]byte{}, f.data...)
	r, _ := newReq(R, hdr, val, f)
	c.NoPanic("gzip-panic", fmt.Sprintf("AcceptGzip with a %s body %.40x (%d bytes)", kind, input, len(input)), func() {
		got, err := goio.ReadAll(rest.AcceptGzip(r))
		// reference: what compress/gzip says of the same bytes and the same final error, delivered in one piece
		var want []byte
		zr, werr := gzip.NewReader(&faultReader{data: append([]byte{}, input...), err: f.err})
		if werr == nil {
			want, werr = goio.ReadAll(zr)
		}
		if len(input) == 0 && f.err == goio.EOF {
			// no body at all: an error, or no content
			c.Check(len(got) == 0, "gzip-data", "empty body: got %d bytes", len(got))
			return
		}
		c.Check((err == nil) == (werr == nil), "gzip-error", "%s gzip body (%d of %d bytes, final error %v): error %v, want %v", kind, len(input), len(enc), f.err, err, werr)
		if werr == nil || kind == "whole" {
			c.Check(bytes.Equal(got, want), "gzip-data", "%s gzip body: got %d bytes, want %d", kind, len(got), len(want))
		}
		if kind == "whole" && f.err == goio.EOF {
			c.Check(err == nil && bytes.Equal(got, data), "gzip-roundtrip", "got %d bytes of %d, error %v", len(got), len(data), err)
		}
		if err == nil && kind != "garbage" && kind != "flipped" {
			c.Check(bytes.HasPrefix(data, got), "gzip-wrong-data", "%s gzip body: wrong data without an error", kind)
		}
		if f.err != goio.EOF {
			c.Check(err != nil, "gzip-fault-lost", "%s gzip body: reader error lost", kind)
		}
		c.Ev("gzip bodies " + kind)
		c.Obs("gzip", kind, len(input), err != nil, f.script())
		c.Sample("%s gzip body of %d bytes: %d bytes, %v", kind, len(input), len(got), err)
	})
}

// contentGzipLarge has small bodies that decompress to much.
func contentGzipLarge(c *h.Ctx) {
	var (
		R     = c.R
		size  = (1 + R.Intn(90)) << 20
		block = make([]byte, 1<<16)
		buf   bytes.Buffer
	)
	// little, or much smaller than what they decompress to
	noise, shift := R.Intn(2) == 0, []int{0, 4, 16}[R.Intn(3)]
	for i := range block {
		if noise {
			shift = R.Intn(3)
		}
		block[i] = byte(i >> shift)
	}
	size += R.Intn(1 << 20)
	w, _ := gzip.NewWriterLevel(&buf, []int{1, 9}[R.Intn(2)])
	for left := size; left > 0; left -= len(block) {
		w.Write(block[:min(left, len(block))])
	}
	w.Close()
	r, _ := newReq(R, "Accept-Encoding", "gzip", &buf)
	var (
		rd    = rest.AcceptGzip(r)
		n     int
		same  = true
		chunk = make([]byte, 1<<16)
	)
	for {
		k, err := goio.ReadFull(rd, chunk)
		same = same && bytes.Equal(chunk[:k], block[:k])
		n += k
		if err == goio.EOF || err == goio.ErrUnexpectedEOF {
			break
		}
		if !c.Check(err == nil, "gzip-large", "a body of %d bytes: error %v after %d", size, err, n) {
			return
		}
	}
	c.Check(n == size && same, "gzip-large", "a body of %d bytes: read %d, same %v", size, n, same)
	c.EvN("bytes of large gzip bodies", n)
	c.Obs("large", size)
	c.Sample("gzip body that decompresses to %d bytes: %d read", size, n)
}

var contentTypes = []string{"", "-", "text/plain", "application/xml", "text/csv2", "application/jsonp", "json", "csv", "text", "application/octet-stream"}

func contentCSV(c *h.Ctx) {
	R := c.R
	val := "text/csv"
	if R.Intn(4) == 0 {
		val = append(contentTypes, "application/json")[R.Intn(len(contentTypes)+1)]
	}
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	w.UseCRLF = R.Intn(2) == 0
	cols := 1 + szMax(R, 4, 100)
	var rows [][]string
	for n := szMax(R, 6, 2000); n > 0; n-- {
		var row []string
		for k := 0; k < cols; k++ {
			row = append(row, []string{"a", "", `q"x`, "l1\nl2", " sp ", "é,€", "1.5", "#c", ` "q"`, "\t#", "'a'", ";"}[R.Intn(12)])
		}
		if cols == 1 && row[0] == "" {
			row[0] = "x" // an empty line is no record
		}
		w.Write(row)
		rows = append(rows, row)
	}
	w.Flush()
	body := buf.Bytes()
	broken := len(body) > 0 && R.Intn(4) == 0
	if broken {
		// text that need not be CSV: the standard reader tells how far it is
		i := R.Intn(len(body))
		body = []byte(string(body[:i]) + []string{`"`, "\n", ",", "x\"y", "\" ", "\r", "\n\n", " \"a\" ", "#"}[R.Intn(9)] + string(body[i+R.Intn(2):]))
		rows = nil
	}
	var bad error
	if broken {
		for rd := csv.NewReader(bytes.NewReader(body)); ; {
			var row []string
			if row, bad = rd.Read(); bad != nil {
				break
			}
			rows = append(rows, row)
		}
		if bad == goio.EOF {
			bad = nil
		}
	}
	zipped := R.Intn(4) == 0
	if zipped {
		body = gz(R, body)
	}
	f := newFaultReader(R, body)
	hdr := "Content-Type"
	if val == "-" {
		hdr = ""
	}
	r, _ := newReq(R, hdr, val, f)
	if zipped {
		r.Header.Set("Accept-Encoding", "gzip")
		r.Body = goio.NopCloser(rest.AcceptGzip(r))
	}
	reads := f.reads
	it := rest.NegotiateCSVContent(r)
	if val != "text/csv" {
		c.Check(it == nil, "csv-not-nil", "Content-Type %q accepted as CSV", val)
		c.Check(f.reads == reads, "csv-read", "body of a refused request was read")
		c.Ev("requests refused")
		c.Obs("csv refused", val)
		return
	}
	if !c.Check(it != nil, "csv-nil", "Content-Type text/csv refused") {
		return
	}
	var got [][]string
	next := it.Next
	for {
		rec, err := next()
		if err != nil {
			if bad != nil {
				c.Check(err == bad || f.err != goio.EOF && err == f.err || err != iter.EOI && err.Error() == bad.Error(), "csv-bad", "text that is no CSV after %d rows: %v, want %v", len(rows), err, bad)
			} else if f.err == goio.EOF {
				c.Check(err == iter.EOI, "csv-end", "rows ended with %v", err)
			} else {
				c.Check(err == f.err, "csv-fault", "reader error became %v", err)
			}
			break
		}
		got = append(got, append([]string{}, rec...)) // the same slice may be returned each time, as documented
		if len(got) > len(rows)+2 {
			break
		}
	}
	if f.err == goio.EOF {
		c.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", rows), "csv-rows", "rows %q (gzip %v %s), got %q", rows, zipped, f.script(), got)
	} else {
		c.Check(len(got) <= len(rows) && (len(got) == 0 || fmt.Sprintf("%q", got) == fmt.Sprintf("%q", rows[:len(got)])), "csv-rows", "rows %q, got %q before the error", rows, got)
	}
	c.EvN("csv rows", len(got))
	c.Obs("csv", fmt.Sprintf("%q", rows), zipped)
}

func contentJSON(c *h.Ctx) {
	R := c.R
	val := "application/json"
	if R.Intn(5) == 0 {
		val = append(contentTypes, "text/csv")[R.Intn(len(contentTypes)+1)]
	}
	text, kind := genJText(R)
	body := []byte(text)
	zipped := R.Intn(4) == 0
	if zipped {
		body = gz(R, body)
	}
	f := newFaultReader(R, body)
	f.err = goio.EOF
	hdr := "Content-Type"
	if val == "-" {
		hdr = ""
	}
	r, _ := newReq(R, hdr, val, f)
	if zipped {
		r.Header.Set("Accept-Encoding", "gzip")
		r.Body = goio.NopCloser(rest.AcceptGzip(r))
	}
	reads := f.reads
	it := rest.NegotiateJSONContent(r)
	if val != "application/json" {
		c.Check(it == nil, "json-not-nil", "Content-Type %q accepted as JSON", val)
		c.Check(f.reads == reads, "json-read", "body of a refused request was read")
		c.Ev("requests refused")
		c.Obs("json refused", val)
		return
	}
	if !c.Check(it != nil, "json-nil", "Content-Type application/json refused") {
		return
	}
	c.NoPanic("json-panic", fmt.Sprintf("JSON content %q", text), func() {
		want, p, werr := jdoc(text)
		els, err, sticky := drain(it.Next, len(text)+2)
		var exp []*jnode
		if werr == nil {
			exp = want.arr
			if want.k == 'o' {
				exp = []*jnode{want}
			}
			c.Check(err == iter.EOI && sticky == "" && len(els) == len(exp), "json-content", "%q (gzip %v): %d values, %v", text, zipped, len(els), err)
		} else {
			exp = p.elem
			c.Check(err != iter.EOI && sticky == "" && len(els) <= len(exp), "json-content-invalid", "%q is not valid: %d values, %v", text, len(els), err)
		}
		for i := 0; i < len(els) && i < len(exp); i++ {
			if !c.Check(nodeOf(els[i]).eq(exp[i]), "json-content-value", "%q: value %d is %v, want %v", text, i, nodeOf(els[i]), exp[i]) {
				break
			}
		}
		c.EvN("json values", len(els))
		c.Obs("json", text, zipped)
		c.Sample("%s %q => %d values, %v", kind, text, len(els), err)
	})
}

func init() {
	h.Register("C17", "distinct (method, path, outcome, number of routes) of requests whose complete routing decision was compared", func(r *h.Run) {
		n := 20000
		if r.Thorough() {
			n = 120000
		}
		r.Group("large", 12+n/4000, largeRoutes)
		sizes(r, 1, 300, 1100, largeRoutes)
		r.Group("routing", n, routing)
		r.Group("uuid", n, func(c *h.Ctx) {
			var mux rest.ServeMux
			var out []served
			mux.MustHandle("GET", "^/x/"+rest.UUIDGroup+"$", &objHandler{id: 0, out: &out})
			u := genUUID(c.R)
			rec := httptest.NewRecorder()
			mux.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Path: "/x/" + u}})
			if isUUID(u) {
				c.Check(len(out) == 1 && fmt.Sprint(out[0].parts) == fmt.Sprint([]string{"/x/" + u, u}), "uuid", "UUID %q not routed: %+v", u, brief(out))
			} else {
				c.Check(len(out) == 0 && rec.Code == 404, "uuid-not", "%q is not a UUID, routed %+v", u, brief(out))
			}
			c.Ev("uuid requests")
			c.Obs(u)
		})
	})
	h.Register("C18", "distinct (seed, requests, routed, refused, registration order) of runs that register routes while requests are served", func(r *h.Run) {
		n, m := 160, 6
		if r.Thorough() {
			n, m = 4000, 150
		}
		r.Group("large", 2+n/1000, largeRegister)
		r.Group("direct", n, func(c *h.Ctx) { restConcurrent(c, false) })
		r.Group("http", m, func(c *h.Ctx) { restConcurrent(c, true) })
		r.Group("handoff", n, restHandoff)
	})
	h.Register("C19", "distinct request bodies, encodings and delivery scripts whose decoded content was compared", func(r *h.Run) {
		n := 4000
		if r.Thorough() {
			n = 150000
		}
		r.Group("gzip", n, contentGzip)
		r.Group("large", 8+n/4000, largeContent)
		sizes(r, 4, 1100, 4200, largeContent)
		r.Group("gzip-large", 16+n/4000, contentGzipLarge)
		r.Group("csv", n, contentCSV)
		r.Group("json", n, contentJSON)
	})
}
