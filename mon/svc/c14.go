package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkEncodings(r *core.Run) {
	r.Rule = "a list of observations is sent to several servers: to the first one per request, to the others with a random partition into requests, media type (text, octet-stream, none, form), framing (length or chunked), delimiter byte, line end and final newline for each request, and = left out before some empty values. " +
		"The responses to queries for everything must be the same bytes, and the first server must agree with the model. Non-trivial if some request had several lines and the encodings differed in at least three respects. big/*: requests of up to 12 MB must have the effect of writing their observations to a store. Digest: observations and encodings."
	r.Assum = []string{"data contains no line breaks and no delimiter byte; delimiters are not digits, = or line breaks; lines are shorter than 64 KB"}
	r.Each(r.N(5000, 20000), "list", encList)
	r.Each(r.N(8, 40), "big", encBig)
}

// encode sends observations as one request in a random encoding.
func encode(c *core.Case, rng *core.Rand, sv *remote, os []obs, feats map[string]bool) {
	d := delimFor(rng, os)
	if rng.P(0.2) {
		d = '\t'
		for _, o := range os {
			for _, p := range o {
				if strings.IndexByte(p.f+p.v, d) >= 0 {
					d = delimFor(rng, os)
				}
			}
		}
	}
	eol := "\n"
	if rng.Bool() {
		eol = "\r\n"
	}
	var b strings.Builder
	for i, o := range os {
		if i > 0 {
			b.WriteString(eol)
		}
		l := timestamp(rng)
		for _, p := range o {
			part := p.f + "=" + p.v
			if p.v == "" && rng.Bool() {
				part = p.f
				feats["no ="] = true
			}
			l += string([]byte{d}) + part
		}
		b.WriteString(l)
	}
	final := rng.Bool()
	if final {
		b.WriteString(eol)
	}
	body := b.String()
	cts := []string{"text/plain", "text/plain; charset=utf-8", "application/octet-stream", "", "Text/Plain", "TEXT/PLAIN;charset=us-ascii", "text/plain ; a=b", " application/octet-stream", "Application/Octet-Stream", "APPLICATION/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8"}
	ct := cts[rng.Intn(len(cts))]
	if strings.Contains(ct, "x-www") {
		enc := url.QueryEscape(body)
		if rng.P(0.3) {
			// everything escaped
			var e strings.Builder
			for i := 0; i < len(body); i++ {
				fmt.Fprintf(&e, "%%%02x", body[i])
			}
			enc = e.String()
		}
		body = "data=" + enc
		if rng.P(0.3) {
			body += "&other=1"
		}
		if rng.P(0.3) {
			body = "other=2&" + body
		}
	}
	chunked := rng.Bool()
	feats["delim"+string([]byte{d})] = true
	feats["eol"+eol] = true
	feats["type"+ct] = true
	feats[fmt.Sprint("final", final)] = true
	feats[fmt.Sprint("chunked", chunked)] = true
	c.Logf("%s %q chunked %v", ct, body, chunked)
	rp := sv.do(c, "POST", "/obs", ct, body, chunked)
	c.Check(ok2xx(rp.code), "observations %q as %q are rejected: %d %s", body, ct, rp.code, rp.body)
	c.Count("requests", 1)
}

func isKey(models []*model, f string) bool {
	for _, m := range models {
		for _, k := range m.s.keys {
			if k == f {
				return true
			}
		}
	}
	return false
}

func encList(c *core.Case, i int) {
	rng := c.Rng
	var models []*model
	models = append(models, newModel(randomSchema(rng, "c0", 2)))
	if rng.Bool() {
		models = append(models, newModel(randomSchema(rng, "c1", 1)))
	}
	numeric := func(f string) bool {
		for _, m := range models {
			if m.s.numeric(f) {
				return true
			}
		}
		return false
	}
	n := rng.Range(2, 40)
	feeds := make([]*feed, len(models))
	for j, m := range models {
		feeds[j] = newFeed(rng, m, rng.Range(1, 3), n)
	}
	var os []obs
	for len(os) < n {
		// merge what the collations want
		var o obs
		seen := map[string]bool{}
		for _, j := range rng.Perm(len(models)) {
			for _, p := range feeds[j].next() {
				if seen[p.f] {
					continue
				}
				seen[p.f] = true
				if numeric(p.f) {
					if _, ok := numberText(p.v); !ok {
						p.v = numText(rng, float64(rng.Range(-9, 9)))
					}
				}
				o = append(o, p)
			}
		}
		if rng.P(0.01) && len(o) < 20 {
			if p := rng.Intn(len(o) + 1); p < len(o) && !numeric(o[p].f) && !isKey(models, o[p].f) {
				o[p].v = longValue(rng)
				c.Count("long lines", 1)
			} else if !seen["zlong"] {
				o = append(o[:p:p], append(obs{{"zlong", longValue(rng)}}, o[p:]...)...)
				c.Count("long lines", 1)
			}
		}
		bad := false
		for _, m := range models {
			bad = m.clash(o) || bad
			t, ok := m.s.tuple(o)
			bad = bad || ok && m.insts[t] == nil && len(m.insts) >= 10
		}
		if bad {
			continue
		}
		for _, m := range models {
			m.add(o)
		}
		os = append(os, o)
	}
	start := func() *remote {
		var stores []storage.Store
		for _, m := range models {
			stores = append(stores, m.s.store(c, 64))
		}
		return serve(c, stores...)
	}
	ref := start()
	defer ref.close()
	for _, o := range os {
		d := byte('\t')
		if bytesOf([]obs{o})[d] {
			d = delimFor(rng, []obs{o})
		}
		rp := ref.post(c, o.line("1480000000000000", d)+"\n")
		c.Check(ok2xx(rp.code), "observation %q is rejected: %d %s", o, rp.code, rp.body)
	}
	v := 0
	want := ""
	for _, m := range models {
		v += m.verifyAll(c, ref, "one observation per request")
		want += dump(c, m, ref, nil)
	}
	variants := rng.Range(2, 4)
	d := uint64(0)
	nontrivial := false
	for k := 0; k < variants; k++ {
		sv := start()
		sv.style = rng.Fork()
		feats := map[string]bool{}
		multi := false
		max := rng.PickInt(1, 3, n, n)
		rest := os
		for _, p := range rng.Split(n, max) {
			encode(c, rng, sv, rest[:p], feats)
			rest = rest[p:]
			multi = multi || p > 1
		}
		got := ""
		for _, m := range models {
			got += dump(c, m, sv, nil)
		}
		if got != want {
			c.Failf("observations sent one per request give\n%s but sent in other ways\n%s(%v)", want, got, feats)
		}
		sv.close()
		nontrivial = nontrivial || multi && len(feats) >= 5
		d = core.Mix(d, core.HashBytes([]byte(fmt.Sprint(feats))))
		c.Count("encodings compared", 1)
	}
	c.Count("observations", n)
	c.Count("values compared with the model", v)
	for _, m := range models {
		d = core.Mix(d, m.digest())
	}
	if !nontrivial {
		d = 0
	}
	c.Eval(d)
	if i < 3 {
		c.Sample("list", fmt.Sprintf("%d observations, %d other encodings, first %q", n, variants, os[0]))
	}
}

// encBig sends very many observations in one request.
func encBig(c *core.Case, i int) {
	rng := c.Rng
	m := newModel(randomSchema(rng, "c", 2))
	n := rng.Range(20, 60)
	f := newFeed(rng, m, rng.Range(1, 3), n)
	var os []obs
	for len(os) < n {
		o := f.next()
		m.add(o)
		os = append(os, o)
	}
	d := delimFor(rng, os)
	size := rng.Range(1, 12) << 20
	ct := rng.Pick("text/plain", "application/octet-stream", "")
	if i%4 == 3 {
		ct = "application/x-www-form-urlencoded"
		size = rng.Range(1, 3) << 20 // three times as much when escaped
	}
	t := &direct{m.s.store(c, 64)}
	sv := serve(c, m.s.store(c, 64))
	defer sv.close()
	var b strings.Builder
	lines := 0
	for b.Len() < size {
		o := os[rng.Intn(n)]
		b.WriteString(o.line("1480000000000000", d) + "\n")
		c.Check(t.write(c, o), "observation %q is rejected", o)
		lines++
		if lines&0xfff == 0 {
			c.Tick()
		}
	}
	body := b.String()
	if i%4 == 3 {
		body = "data=" + url.QueryEscape(body)
	}
	rp := sv.do(c, "POST", "/obs", ct, body, rng.Bool())
	c.Check(ok2xx(rp.code), "a request of %d bytes with %d observations as %q is rejected: %d %s", len(body), lines, ct, rp.code, rp.body)
	want, got := dump(c, m, t, nil), dump(c, m, sv, nil)
	c.Check(want == got, "%v: after a request of %d bytes with %d observations as %q the server reports\n%s instead of\n%s", m.s, len(body), lines, ct, got, want)
	c.Count("observations in large requests", lines)
	c.Eval(core.Mix(m.digest(), uint64(lines)))
}
