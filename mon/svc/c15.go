package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkHTTP(r *core.Run) {
	r.Rule = "servers with one to three collations holding data get valid and faulty requests in random order: wrong methods, paths, collation names, media types, missing data, text that is no query or no observation. The status must be that of the fault (any 4xx if there are several, any error for text that is no observation), faulty requests must change nothing, " +
		"headers that mean nothing here (ranges, conditions, overrides) must not matter; valid ones must be answered with the criteria and the known requested measures in order, and every response must disable caching. Non-trivial if faulty and valid requests were both made. Digest: requests and statuses."
	r.Assum = []string{"paths that net/http redirects to their clean form are not asserted"}
	r.Each(r.N(8000, 40000), "session", httpSession)
}

var (
	otherMethods = []string{"PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "BREW", "get", "post"}
	badTypes     = []string{"application/json", "text/html", "text/csv", "image/png", "multipart/form-data; boundary=x", "application/xml", "text/plain2", "text", "application/x-www-form-urlencoded2", "octet-stream", "text/plain-x; charset=utf-8", "*/*"}
	brokenTypes  = []string{"text/", ";", "/", "text/plain;;;=", "text/plain; a=b; a=c", "text/plain; charset=\"", "te xt/plain", "text/plain; charset"}
	badQueries   = []string{"", " ", "x", "select", "select count(*)", "select count(*) where", "select count(*) where ", "where k='x'", "select where k='x'", "selectcount(*) where k='x'", "count(*) where k='x'", "select count(*) wherek='x'", "select count(*) k='x'", "insert count(*) where k='x'", "SELECT count(*)", "elect count(*) where k='x'", "xselect count(*) where k='x'", "k='x'", "\x00", "select\x00count(*) where k='x'", "%", "select count(*) were k='x'"}
	badLines     = []string{"#\tk=a\tx=1", "# comment", "\xef\xbb\xbf1\tk=a\tx=1", " 1\tk=a\tx=1", "-1\tk=a\tx=1", "+1\tk=a\tx=1", "\tk=a\tx=1", "k=a\tx=1", "x", "\x001\tk=a\tx=1", "/1\tk=a", ":1\tk=a", "now\tk=a\tx=1", "\u0661\tk=a\tx=1", "99999999999999999999999\tk=a\tx=1"}
	badPaths     = []string{"/", "/obs/", "/obs/x", "/OBS", "/ob", "/obss", "/x", "/collations/c", "/collation/", "/Collation/c", "/index.html", "/collation/c/", "/collation/c/x", "/collation/c/obs", "/obs2", "/favicon.ico", "/query"}
)

// idleHeaders are headers that change nothing.
var idleHeaders = [][2]string{{"X-HTTP-Method-Override", "POST"}, {"X-HTTP-Method-Override", "GET"}, {"X-HTTP-Method-Override", "DELETE"}, {"X-HTTP-Method", "POST"}, {"X-Method-Override", "PUT"},
	{"Accept", "application/json"}, {"Accept", "text/html"}, {"Accept", "image/png;q=0"}, {"Accept-Encoding", "identity"}, {"Accept-Charset", "utf-16"}, {"Accept-Language", "de"},
	{"If-None-Match", "*"}, {"If-None-Match", "\"x\""}, {"If-Match", "\"x\""}, {"If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT"}, {"If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"},
	{"Range", "bytes=0-3"}, {"Cookie", "session=1; k=a"}, {"Origin", "http://example.com"}, {"Authorization", "Basic Og=="}, {"Referer", "http://example.com/obs"}, {"User-Agent", ""}, {"User-Agent", "Mozilla/5.0"},
	{"Cache-Control", "only-if-cached"}, {"Cache-Control", "max-age=1000"}, {"Pragma", "no-cache"}, {"X-Forwarded-For", "10.0.0.1"}, {"X-Forwarded-Host", "x"}, {"X-Forwarded-Prefix", "/x"}, {"X-Original-URL", "/obs"}, {"X-Rewrite-URL", "/"},
	{"Content-Language", "fr"}, {"Content-Disposition", "attachment"}, {"X-Requested-With", "XMLHttpRequest"}, {"Dnt", "1"}, {"Upgrade-Insecure-Requests", "1"}, {"Purpose", "prefetch"}, {"Date", "Thu, 01 Jan 1970 00:00:00 GMT"}}

func httpSession(c *core.Case, i int) {
	rng := c.Rng
	names := []string{"c", "cc", "C", "country", "x y", "é", "a%b", "obs", "c.d", "c+d", "0"}
	rng.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	nc := rng.Range(1, 3)
	var models []*model
	var stores []storage.Store
	for j := 0; j < nc; j++ {
		s := ingestSchema(rng, names[j], "k")
		if rng.P(0.3) {
			s.keys = []string{"k", "l"}
		}
		models = append(models, newModel(s))
		stores = append(stores, s.store(c, 64))
	}
	sv := serve(c, stores...)
	defer sv.close()
	sv.style = rng.Fork()
	sv.extra = func(h http.Header) {
		for rng.P(0.3) {
			e := idleHeaders[rng.Intn(len(idleHeaders))]
			h.Set(e[0], e[1])
			c.Count("headers that mean nothing", 1)
		}
	}
	d := uint64(0)
	faults, valid := 0, 0
	send := func(method, target, ct, body string) reply {
		rp := sv.do(c, method, target, ct, body, rng.P(0.2))
		c.Logf("%s %s %q %q: %d", method, target, ct, body, rp.code)
		c.Check(strings.Contains(strings.ToLower(rp.hdr.Get("Cache-Control")), "no-cache"), "the response %d to %s %s has the Cache-Control %q", rp.code, method, target, rp.hdr.Get("Cache-Control"))
		d = core.Mix(d, core.HashBytes([]byte(method+target+ct+body)), uint64(rp.code))
		c.Count("requests", 1)
		return rp
	}
	keys := []string{"a", "b", "", "x y"}
	good := func() obs {
		o := ingestObs(rng, keys[rng.Intn(len(keys))])
		bad := false
		for _, m := range models {
			bad = m.clash(o) || bad
		}
		if bad {
			return nil
		}
		return o
	}
	// known collation path
	cpath := func(m *model) string { return "/collation/" + url.PathEscape(m.s.name) }
	snapshot := func() string {
		s := ""
		for _, m := range models {
			ms := m.s.measures()
			for _, k := range m.order {
				q := queryText(ms, m.insts[k].crit)
				rp := sv.do(c, "GET", cpath(m)+"?q="+url.QueryEscape(q), "", "", false)
				c.Check(rp.code == 200, "query %q gets status %d", q, rp.code)
				s += rp.body
			}
		}
		return s
	}
	n := rng.Range(6, 30)
	for j := 0; j < n; j++ {
		m := models[rng.Intn(len(models))]
		if rng.P(0.3) || len(m.order) == 0 {
			if o := good(); o != nil {
				batch := []obs{o}
				for rng.P(0.2) {
					// several at a time, some of them the same
					if p := good(); p != nil && rng.P(0.7) {
						o = p
					}
					batch = append(batch, o)
				}
				text := ""
				for j, o := range batch {
					if j > 0 {
						text += "\n"
					}
					text += o.line(timestamp(rng), '\t')
				}
				rp := send("POST", "/obs", rng.Pick("text/plain", "application/octet-stream", "", "TEXT/PLAIN", "Text/Plain; charset=utf-8", "text/plain ;charset=us-ascii", "Application/Octet-Stream", "text/plain; format=flowed; delsp=yes", " text/plain"), text)
				c.Check(ok2xx(rp.code), "observations %q get status %d: %s", text, rp.code, rp.body)
				for _, o := range batch {
					for _, m := range models {
						m.add(o)
					}
				}
				valid++
				c.Count("valid observations", 1)
			}
			continue
		}
		line := "1\tk=a\tl=p\tx=1\tu=zzz\ty=3"
		if rng.P(0.35) {
			// a valid query
			in := m.insts[m.order[rng.Intn(len(m.order))]]
			ms := m.s.measures()
			rng.Shuffle(len(ms), func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
			ms = ms[:rng.Range(1, len(ms))]
			for rng.P(0.3) {
				at := rng.Range(0, len(ms))
				ms = append(ms[:at:at], append([]string{rng.Pick("median(x)", "sum(nofield)", "COUNT(*)", "max(*)", "uniquecount(x)", "sum(X)", "count(k)")}, ms[at:]...)...)
			}
			crit := append([]kv(nil), in.crit...)
			if rng.P(0.3) {
				crit = append(crit, kv{"unrelated", "1"})
			}
			if rng.P(0.02) {
				for k := rng.PickInt(10, 70, 300, 1100, 3000); k > 0; k-- {
					crit = append(crit, kv{"unrelated" + strconv.Itoa(k), rng.Pick("", "1", "x y")})
				}
				c.Count("queries with many criteria", 1)
			}
			rng.Shuffle(len(crit), func(a, b int) { crit[a], crit[b] = crit[b], crit[a] })
			q := queryText(ms, crit)
			if rng.P(0.02) {
				// a long one
				q = strings.Replace(q, " where ", strings.Repeat(" ", rng.PickInt(3000, 9000, 70000, 600000))+"where ", 1)
				c.Count("long queries", 1)
			}
			var rp reply
			if rng.Bool() {
				eq := url.QueryEscape(q)
				rp = send("GET", cpath(m)+"?q="+eq, "", "")
			} else {
				rp = send("POST", cpath(m), rng.Pick("application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded"), "q="+url.QueryEscape(q))
			}
			c.Check(rp.code == 200, "query %q of %q gets status %d: %s", q, m.s.name, rp.code, rp.body)
			a := parseBody(c, rp.body, crit)
			want := m.s.expectOrder(ms)
			c.Check(sameOrder(a, want), "query %q of %v answers %q, want the lines %q", q, m.s, rp.body, want)
			for _, p := range a {
				in.verify(c, m.s, p.f, p.v, q)
			}
			valid++
			c.Count("valid queries", 1)
			continue
		}
		before := ""
		if rng.P(0.5) {
			before = snapshot()
		}
		q := queryText([]string{"count(*)"}, m.insts[m.order[0]].crit)
		eq := "?q=" + url.QueryEscape(q)
		var rp reply
		what := ""
		codes := []int{}
		switch rng.Intn(11) {
		case 10:
			l := badLines[rng.Intn(len(badLines))]
			what = fmt.Sprintf("text %q that is no observation", l)
			codes = []int{400, 422, 500}
			rp = send("POST", "/obs", rng.Pick("text/plain", "application/octet-stream", ""), l+rng.Pick("", "\n", "\r\n", "\n"+line, "\n1\n"))
		case 0:
			mt := otherMethods[rng.Intn(len(otherMethods))]
			if rng.P(0.3) {
				mt = "GET"
			}
			what, codes = "method "+mt+" on the observation path", []int{405}
			body := line
			if mt == "HEAD" || mt == "TRACE" || rng.P(0.3) {
				body = ""
			}
			rp = send(mt, "/obs", "text/plain", body)
		case 1:
			mt := otherMethods[rng.Intn(len(otherMethods))]
			what, codes = "method "+mt+" on a collation", []int{405}
			rp = send(mt, cpath(m)+eq, "", "")
		case 2, 3:
			p := badPaths[rng.Intn(len(badPaths))]
			what, codes = "path "+p, []int{404}
			if rng.Bool() {
				rp = send("GET", p+eq, "", "")
			} else {
				rp = send("POST", p, "text/plain", line)
				if strings.HasPrefix(p, "/collation/") {
					codes = []int{404, 400}
				}
			}
		case 4:
			name := names[nc+rng.Intn(len(names)-nc)]
			if rng.P(0.5) {
				name = m.s.name + rng.Pick("x", " ", "0", "%")
			}
			for _, m := range models {
				if m.s.name == name {
					name = "nosuch"
				}
			}
			what, codes = fmt.Sprintf("unknown collation %q", name), []int{404}
			if rng.Bool() {
				rp = send("GET", "/collation/"+url.PathEscape(name)+eq, "", "")
			} else {
				rp = send("POST", "/collation/"+url.PathEscape(name), "application/x-www-form-urlencoded", eq[1:])
			}
		case 5:
			ct := badTypes[rng.Intn(len(badTypes))]
			what, codes = "media type "+ct, []int{415}
			rp = send("POST", "/obs", ct, line)
		case 6:
			ct := brokenTypes[rng.Intn(len(brokenTypes))]
			what, codes = "broken media type "+ct, []int{400, 415}
			rp = send("POST", "/obs", ct, line)
			if ok2xx(rp.code) {
				// the library may come to parse it; then it is text
				codes = []int{rp.code}
				if strings.HasPrefix(ct, "text/plain") {
					for _, m := range models {
						m.add(obs{{"k", "a"}, {"l", "p"}, {"x", "1"}, {"u", "zzz"}, {"y", "3"}})
					}
					before = ""
				} else {
					codes = []int{400}
				}
			}
		case 7:
			what, codes = "form without data", []int{400}
			rp = send("POST", "/obs", "application/x-www-form-urlencoded", rng.Pick("", "data=", "x=1", "Data="+url.QueryEscape(line), "dat="+url.QueryEscape(line), "q="+url.QueryEscape(line)))
		case 8:
			b := badQueries[rng.Intn(len(badQueries))]
			what, codes = fmt.Sprintf("query %q", b), []int{400}
			if rng.Bool() {
				rp = send("GET", cpath(m)+"?q="+url.QueryEscape(b), "", "")
			} else {
				rp = send("POST", cpath(m), "application/x-www-form-urlencoded", "q="+url.QueryEscape(b))
			}
		case 9:
			what = "several faults"
			mt := rng.Pick("PUT", "GET", "POST", "DELETE")
			p := rng.Pick("/obs", "/collation/nosuch", "/collation/", "/x", "/collation/a/b")
			rp = send(mt, p+"?q=nonsense", rng.Pick("application/json", "image/png"), "nonsense")
		}
		okCode := rp.code >= 400 && rp.code < 500
		if len(codes) > 0 {
			okCode = false
			for _, k := range codes {
				okCode = okCode || rp.code == k
			}
		}
		c.Check(okCode, "%s gets status %d (%q), want %v", what, rp.code, rp.body, codes)
		if before != "" {
			after := snapshot()
			c.Check(before == after, "%s changes %q to %q", what, before, after)
		}
		faults++
		c.Count("faulty requests", 1)
	}
	v := 0
	for _, m := range models {
		v += verifyEscaped(c, sv, m)
	}
	c.Count("values compared with the model", v)
	if faults == 0 || valid == 0 {
		d = 0
	}
	c.Eval(d)
	if i < 3 {
		c.Sample("session", fmt.Sprintf("%v and %d more collations, %d faulty requests, %d valid", models[0].s, nc-1, faults, valid))
	}
}

type escaped struct{ *remote }

func (e escaped) read(c *core.Case, name string, ms []string, crit []kv) answer {
	return e.remote.read(c, url.PathEscape(name), ms, crit)
}

func verifyEscaped(c *core.Case, sv *remote, m *model) int {
	return m.verifyAll(c, escaped{sv}, "at the end of the session")
}
