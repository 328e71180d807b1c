package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkCut(r *core.Run) {
	r.Level = "fault_enumeration"
	r.Rule = "cut/*: a batch is uploaded over a raw connection (with a length, chunked, or as a form) and cut off at every byte of the request body, by closing the connection or only its sending side; broken/*: the encoding of an upload breaks off after any byte of the batch while its connection stays open, or reading it fails with an error of whatever kind; line/*: a batch has a faulty line (no timestamp, not a number, blank, too long) at every position; slow/*: the upload comes in pieces; hangup/*: a complete upload whose sender hangs up (entirely, or only its sending side) while some line is being stored. " +
		"The i-th line has the value 2^i, so the sum names the lines stored, which must be the first ones of those completely received (all before the faulty line, with an error as response); count, minimum and maximum must agree. " +
		"Non-trivial if at least one line, but not all, was stored. Digest: batch, position and outcome."
	r.Assum = []string{"a server with one keyed and, for cuts, one unkeyed collation; for faulty lines a single collation", "whether a last line is stored of which only the line end is missing is left open"}
	r.Each(r.N(160, 2000), "cut", cutBatch)
	r.Each(r.N(60, 600), "broken", cutBroken)
	r.Each(r.N(120, 1200), "line", cutLine)
	r.Each(r.N(40, 400), "slow", cutSlow)
	r.Each(r.N(150, 1500), "hangup", cutHangup)
}

// gated is a backend that can be held at some update.
type gated struct {
	storage.Backend
	n    int32
	at   int32         // the update to hold, or -1
	held chan struct{} // closed when it is reached
	open chan struct{} // closed to let it go on
}

func (g *gated) Update(k uint64, fn func([]byte, bool) error) error {
	if atomic.AddInt32(&g.n, 1)-1 == g.at {
		close(g.held)
		<-g.open
	}
	return g.Backend.Update(k, fn)
}

// cutHangup sends complete uploads and stops sending (or listening, too) while the lines are being stored.
func cutHangup(c *core.Case, i int) {
	rng := c.Rng
	keyed, _ := cutSchemas()
	st := keyed.store(c, 1009)
	g := &gated{Backend: st.Backend, at: -1}
	st.Backend = g
	sv := serve(c, st)
	defer sv.close()
	for r := 0; r < 5; r++ {
		key := fmt.Sprintf("k%dz", r)
		n := rng.Range(1, 40)
		text := cutText(rng, key, n, rng.Pick("\n", "\r\n"), rng.Bool())
		up := makeUpload(rng, text, rng.Intn(3))
		g.held, g.open = make(chan struct{}), make(chan struct{})
		atomic.StoreInt32(&g.n, 0)
		atomic.StoreInt32(&g.at, int32(rng.Intn(n)))
		conn := sv.dial(c)
		_, err := conn.Write([]byte(up.head + string(up.body)))
		c.Check(err == nil, "sending: %v", err)
		ctx := fmt.Sprintf("complete upload (%s) %q, its sender hangs up while line %d is stored", up.kind, text, g.at+1)
		select {
		case <-g.held:
		case <-time.After(30 * time.Second):
			c.Check(false, "%s: the line is not stored within 30 s", ctx)
		}
		gone := rng.P(0.3)
		if gone {
			conn.Close()
		} else {
			halfClose(conn)
		}
		time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
		atomic.StoreInt32(&g.at, -1)
		close(g.open)
		code := 0
		if !gone {
			code, err = readReply(conn)
			c.Check(err == nil, "%s: no response: %v", ctx, err)
			conn.Close()
		}
		k := 0
		for t := 0; t < 3; t++ {
			k = stored(c, sv, keyed, key, ctx)
			if !ok2xx(code) {
				time.Sleep(100 * time.Microsecond)
			}
		}
		if ok2xx(code) {
			c.Check(k == n, "%s: it is acknowledged with status %d, but only %d of %d lines are stored", ctx, code, k, n)
			c.Count("acknowledged though the sender hung up", 1)
		}
		c.Count("senders that hung up", 1)
		if k > 0 && k < n {
			c.Count("stored in part after hanging up", 1)
		}
		c.Eval(core.Mix(uint64(i), uint64(n), uint64(k), uint64(r), uint64(code)))
	}
}

// stretch makes a line long, but no longer than is accepted.
func stretch(rng *core.Rand, o obs) obs {
	p := kv{"pad", strings.Repeat(rng.Pick("y", "=", "1"), rng.PickInt(500, 1000, 2000, 4000, 8100, 16300, 33000, 60000)+rng.Intn(200))}
	at := rng.Intn(len(o) + 1)
	return append(append(append(obs{}, o[:at]...), p), o[at:]...)
}

// cutObs is line j of a batch for instance key.
func cutObs(rng *core.Rand, key string, j int) obs {
	o := obs{{"k", key}, {"x", strconv.FormatUint(1<<uint(j), 10)}}
	if rng.P(0.4) {
		o = append(o, kv{"note", rng.Text(rng.Range(0, 8), "abc 0123456789")})
	}
	rng.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
	return o
}

func cutSchemas() (*schema, *schema) {
	f := []fieldSpec{{"x", []string{"count", "sum", "max", "min"}}}
	return &schema{name: "c", rec: 1, keys: []string{"k"}, fields: f}, &schema{name: "all", rec: 1, fields: f}
}

// stored reads which lines of an instance are stored.
func stored(c *core.Case, sv *remote, s *schema, key, ctx string) int {
	a := sv.read(c, s.name, s.measures(), []kv{{"k", key}})
	if len(a) == 0 {
		return 0
	}
	num := func(mf string) float64 {
		t, ok := a.get(mf)
		v, err := strconv.ParseFloat(t, 64)
		c.Check(ok && err == nil, "%s: answer %v", ctx, a)
		return v
	}
	sum, n := num("sum(x)"), num("count(*)")
	c.Check(sum >= 1 && sum == math.Trunc(sum) && sum < 1<<50, "%s: stored is %v, which is no set of whole lines", ctx, a)
	set := uint64(sum)
	k := bits.OnesCount64(set)
	c.Check(set&(set+1) == 0, "%s: stored are the lines %b, which are not the first ones: %v", ctx, set, a)
	c.Check(float64(k) == n && num("count(x)") == n && num("min(x)") == 1 && num("max(x)") == math.Ldexp(1, k-1), "%s: stored is %v, which is no set of whole lines", ctx, a)
	return k
}

// request is the head and body of an upload.
type upload struct {
	head string
	body []byte             // as sent
	got  func(n int) []byte // payload contained in the first n bytes of the body
	form bool
	kind string
}

func makeUpload(rng *core.Rand, text string, kind int) upload {
	ct := rng.Pick("text/plain", "application/octet-stream", "text/plain; charset=utf-8")
	conn := rng.Pick("", "", "Connection: close\r\n")
	switch kind {
	case 0:
		return upload{"POST /obs HTTP/1.1\r\nHost: x\r\n" + conn + "Content-Type: " + ct + "\r\nContent-Length: " + strconv.Itoa(len(text)) + "\r\n\r\n",
			[]byte(text), func(n int) []byte { return []byte(text[:n]) }, false, "length"}
	case 1:
		var b strings.Builder
		var upto []int // payload bytes received after each byte of the body
		pos := 0
		put := func(s string, payload bool) {
			for i := 0; i < len(s); i++ {
				if payload {
					pos++
				}
				upto = append(upto, pos)
			}
			b.WriteString(s)
		}
		rest := text
		for _, n := range rng.Split(len(text), rng.PickInt(1, 7, 40, len(text))) {
			put(strconv.FormatInt(int64(n), 16)+"\r\n", false)
			put(rest[:n], true)
			put("\r\n", false)
			rest = rest[n:]
		}
		put("0\r\n\r\n", false)
		return upload{"POST /obs HTTP/1.1\r\nHost: x\r\n" + conn + "Content-Type: " + ct + "\r\nTransfer-Encoding: chunked\r\n\r\n",
			[]byte(b.String()), func(n int) []byte {
				if n == 0 {
					return nil
				}
				return []byte(text[:upto[n-1]])
			}, false, "chunked"}
	}
	body := "data=" + url.QueryEscape(text)
	return upload{"POST /obs HTTP/1.1\r\nHost: x\r\n" + conn + "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n",
		[]byte(body), func(n int) []byte {
			if n < 5 {
				return nil
			}
			s := body[5:n]
			for i := 0; i < 3; i++ {
				if d, err := url.QueryUnescape(s); err == nil {
					return []byte(d)
				}
				s = s[:len(s)-1]
			}
			return nil
		}, true, "form"}
}

// whole counts the lines whose text is completely contained in the payload, and those
// whose line end is, too.
func whole(text string, payload []byte) (withText, withEnd int) {
	off := 0
	for _, l := range strings.SplitAfter(text, "\n") {
		if l == "" {
			continue
		}
		t := len(strings.TrimRight(l, "\r\n"))
		if len(payload) >= off+t {
			withText++
		}
		if strings.HasSuffix(l, "\n") && len(payload) >= off+len(l) {
			withEnd++
		}
		off += len(l)
	}
	return
}

// halfClose shuts down the sending side.
func halfClose(conn net.Conn) {
	if u, ok := conn.(*net.UnixConn); ok {
		u.CloseWrite()
	}
}

// readReply reads a response, if there is one.
func readReply(conn net.Conn) (int, error) {
	conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	res, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return 0, err
	}
	io.Copy(io.Discard, res.Body)
	res.Body.Close()
	return res.StatusCode, nil
}

func cutBatch(c *core.Case, i int) {
	rng := c.Rng
	keyed, all := cutSchemas()
	n := rng.Range(1, 6)
	kind := i % 3
	crs := rng.PickInt(0, 0, 1)
	eol := "\n"
	if crs == 1 {
		eol = "\r\n"
	}
	final := rng.P(0.7)
	// every cut has its own instance but is otherwise the same
	seedText, seedUp := rng.Fork(), rng.Fork()
	a0, b0 := *seedText, *seedUp
	up0 := makeUpload(&b0, cutText(&a0, "k0000z", n, eol, final), kind)
	stores := []storage.Store{keyed.store(c, 3*(2*len(up0.body)+200)+1009), all.store(c, 1)}
	if rng.Bool() {
		stores[0], stores[1] = stores[1], stores[0]
	}
	sv := serve(c, stores...)
	defer sv.close()
	total, accepted := 0, 0
	outcome := map[string]int{}
	cuts := len(up0.body)
	for cut := 0; cut <= cuts; cut++ {
		key := fmt.Sprintf("k%04dz", cut)
		a, b := *seedText, *seedUp
		text := cutText(&a, key, n, eol, final)
		up := makeUpload(&b, text, kind)
		at := cut
		complete := at == len(up.body)
		conn := sv.dial(c)
		half := rng.P(0.6)
		_, err := conn.Write([]byte(up.head))
		if err == nil {
			_, err = conn.Write(up.body[:at])
		}
		c.Check(err == nil, "cut %d: sending: %v", cut, err)
		ctx := fmt.Sprintf("upload (%s) %q cut off after %q", up.kind, text, up.body[:at])
		code := 0
		if half || complete {
			if !complete {
				halfClose(conn)
			}
			code, err = readReply(conn)
			if complete {
				c.Check(err == nil, "complete %s: no response: %v", ctx, err)
			}
		}
		conn.Close()
		if !complete && code != 0 {
			c.Check(!ok2xx(code), "%s: the cut upload gets status %d", ctx, code)
			c.Count("cut uploads answered with an error", 1)
		}
		if complete {
			c.Check(ok2xx(code), "%s: complete upload gets status %d", ctx, code)
			c.Check(stored(c, sv, keyed, key, ctx) == n, "%s: complete upload stores %d of %d lines", ctx, stored(c, sv, keyed, key, ctx), n)
		}
		max, _ := whole(text, up.got(at))
		if !complete && !half {
			// the server notices in its own time
			for t := 0; t < 3; t++ {
				if stored(c, sv, keyed, key, ctx) > 0 {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		k := stored(c, sv, keyed, key, ctx)
		c.Check(k <= max, "%s: %d lines are stored but only %d were sent completely", ctx, k, max)
		outcome[fmt.Sprint(k, max)]++
		c.Count("uploads cut off", 1)
		total = cut
		if k > 0 && k < n {
			accepted++
			c.Eval(core.Mix(uint64(kind), uint64(n), uint64(cut), uint64(k), uint64(i)))
		} else {
			c.Eval(0)
		}
	}
	// look again at everything, after the server has noticed all closed connections
	time.Sleep(2 * time.Millisecond)
	sum, cnt := 0.0, 0
	for cut := 0; cut <= total; cut++ {
		key := fmt.Sprintf("k%04dz", cut)
		a, b := *seedText, *seedUp
		text := cutText(&a, key, n, eol, final)
		up := makeUpload(&b, text, kind)
		at := cut
		max, _ := whole(text, up.got(at))
		ctx := fmt.Sprintf("upload (%s) %q cut off after %q", up.kind, text, up.body[:at])
		k := stored(c, sv, keyed, key, ctx)
		c.Check(k <= max, "%s: %d lines are stored but only %d were sent completely", ctx, k, max)
		sum += float64(uint64(1)<<uint(k) - 1)
		cnt += k
		for l := 1; l < len(key); l++ {
			if cut%10 == 0 {
				ans := sv.read(c, "c", keyed.measures(), []kv{{"k", key[:l]}})
				c.Check(len(ans) == 0, "part of a key is stored: instance %q reports %v", key[:l], ans)
			}
		}
	}
	ans := sv.read(c, "all", all.measures(), []kv{{"z", "z"}})
	if cnt > 0 || len(ans) > 0 {
		g, _ := ans.get("count(*)")
		h, _ := ans.get("sum(x)")
		gv, _ := strconv.ParseFloat(g, 64)
		hv, _ := strconv.ParseFloat(h, 64)
		c.Check(gv == float64(cnt) && hv == sum, "the unkeyed collation reports %v but the lines stored are %d with the sum %v (%s upload)", ans, cnt, sum, up0.kind)
	}
	c.Count("uploads stored in part", accepted)
	if i < 6 {
		c.Sample("cut", fmt.Sprintf("%s upload of %d lines, %d cuts, outcomes (lines stored, lines sent): %v", up0.kind, n, total+1, outcome))
	}
}

// failing is a body that cannot be read to the end.
type failing struct {
	parts []string
	err   error
	last  bool // the error comes with the last data
}

func (f *failing) Read(p []byte) (int, error) {
	for len(f.parts) > 0 {
		n := copy(p, f.parts[0])
		f.parts[0] = f.parts[0][n:]
		if len(f.parts[0]) == 0 {
			f.parts = f.parts[1:]
		}
		if n == 0 {
			continue
		}
		if len(f.parts) == 0 && f.last {
			return n, f.err
		}
		return n, nil
	}
	return 0, f.err
}

func (f *failing) Close() error { return nil }

// cutBroken breaks uploads off in ways that leave the connection as it is.
func cutBroken(c *core.Case, i int) {
	rng := c.Rng
	keyed, _ := cutSchemas()
	n := rng.Range(1, 6)
	eol := rng.Pick("\n", "\r\n")
	final := rng.Bool()
	seed := rng.Fork()
	a0 := *seed
	size := len(cutText(&a0, "k0000z", n, eol, final))
	sv := serve(c, keyed.store(c, 3*size+1009))
	defer sv.close()
	// a request over the network, as the server may not be ready when it starts to listen
	sv.do(c, "GET", "/", "", "", false)
	for cut := 0; cut <= size; cut++ {
		a := *seed
		key := fmt.Sprintf("k%04dz", cut)
		text := cutText(&a, key, n, eol, final)
		var parts []string
		at := 0
		for _, p := range rng.Split(cut, rng.PickInt(1, 7, 40, size)) {
			parts = append(parts, text[at:at+p])
			at += p
		}
		code := 0
		how := ""
		if i%2 == 0 {
			var b strings.Builder
			b.WriteString("POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n")
			for _, p := range parts {
				fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
			}
			how = rng.Pick("xyz\r\n", "-1\r\n", "\r\n", "fffffffffffffffff\r\n", "1 1\r\n", strings.Repeat("0", 40)+"1\r\n")
			b.WriteString(how)
			conn := sv.dial(c)
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			_, err := conn.Write([]byte(b.String()))
			c.Check(err == nil, "sending: %v", err)
			code, err = readReply(conn)
			c.Check(err == nil, "an upload whose encoding breaks off with %q gets no response: %v", how, err)
			conn.Close()
		} else {
			f := &failing{parts: parts, last: rng.Bool(), err: []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, http.ErrBodyReadAfterClose, errBroken}[rng.Intn(5)]}
			how = f.err.Error()
			req := httptest.NewRequest("POST", "/obs", nil)
			req.Header.Set("Content-Type", rng.Pick("text/plain", "application/octet-stream"))
			req.Body, req.ContentLength = f, -1
			w := httptest.NewRecorder()
			sv.srv.ServeHTTP(w, req)
			code = w.Code
		}
		ctx := fmt.Sprintf("upload %q broken off after %q by %q", text, text[:cut], how)
		c.Check(!ok2xx(code), "%s gets status %d", ctx, code)
		max, _ := whole(text, []byte(text[:cut]))
		k := stored(c, sv, keyed, key, ctx)
		c.Check(k <= max, "%s: %d lines are stored but only %d were sent completely", ctx, k, max)
		c.Count("uploads broken off", 1)
		if k > 0 && k < n {
			c.Count("uploads stored in part", 1)
			c.Eval(core.Mix(uint64(n), uint64(cut), uint64(k), uint64(i), core.HashBytes([]byte(how))))
		} else {
			c.Eval(0)
		}
	}
}

var errBroken = errors.New("broken")

func cutText(rng *core.Rand, key string, n int, eol string, final bool) string {
	var b strings.Builder
	for j := 0; j < n; j++ {
		if j > 0 {
			b.WriteString(eol)
		}
		b.WriteString(cutObs(rng, key, j).line(rng.Pick("1", "1480000000000000"), '\t'))
	}
	if final {
		b.WriteString(eol)
	}
	return b.String()
}

var faultKinds = []string{"no timestamp", "text before the timestamp", "not a number", "empty number", "blank", "number out of range", "too long", "key only in part"}

func cutLine(c *core.Case, i int) {
	rng := c.Rng
	keyed, _ := cutSchemas()
	n := rng.Range(1, 12)
	sv := serve(c, keyed.store(c, 1009))
	defer sv.close()
	for at := 0; at < n; at++ {
		key := fmt.Sprintf("k%dz", at)
		kind := rng.Intn(len(faultKinds) - 1)
		var b strings.Builder
		eol := rng.Pick("\n", "\n", "\r\n")
		long := rng.PickInt(0, 0, 1, 5)
		for j := 0; j < n; j++ {
			o := cutObs(rng, key, j)
			if rng.Intn(10) < long {
				o = stretch(rng, o)
			}
			l := o.line("1480000000000000", '\t')
			if j == at {
				switch kind {
				case 0:
					l = l[16:]
				case 1:
					l = rng.Pick("-", " ", "x", "\t", "=") + l
				case 2, 3, 5:
					v := []string{"", "", "zwölf", "", "", "1e999"}[kind]
					for x := range o {
						if o[x].f == "x" {
							o[x].v = v
						}
					}
					l = o.line("1480000000000000", '\t')
				case 4:
					l = ""
				case 6:
					// may be accepted, if the limit is ever raised
					l += "\tpad=" + strings.Repeat("y", rng.Range(66000, 200000))
				}
			}
			b.WriteString(l)
			if j < n-1 || rng.Bool() || l == "" {
				b.WriteString(eol)
			}
		}
		body := b.String()
		ct := rng.Pick("text/plain", "application/octet-stream", "", "application/x-www-form-urlencoded")
		if ct == "application/x-www-form-urlencoded" {
			body = "data=" + url.QueryEscape(body)
		}
		rp := sv.do(c, "POST", "/obs", ct, body, rng.Bool())
		short := body
		if len(short) > 2000 {
			short = short[:2000] + "..."
		}
		ctx := fmt.Sprintf("batch %q of %d lines with a fault (%s) in line %d", short, n, faultKinds[kind], at+1)
		k := stored(c, sv, keyed, key, ctx)
		c.Count("batches with a faulty line", 1)
		if kind == 6 && ok2xx(rp.code) {
			c.Check(k == n, "%s: accepted, and %d lines are stored", ctx, k)
			continue
		}
		c.Check(rp.code >= 400, "%s gets status %d", ctx, rp.code)
		c.Check(k == at, "%s: %d lines are stored", ctx, k)
		// the server goes on
		o := cutObs(rng, key+"after", 0)
		rp = sv.post(c, o.line("1", '\t'))
		c.Check(ok2xx(rp.code) && stored(c, sv, keyed, key+"after", "observation after "+ctx) == 1, "an observation after %s gets status %d", ctx, rp.code)
		if at > 0 {
			c.Eval(core.Mix(uint64(kind), uint64(n), uint64(at), uint64(i)))
		} else {
			c.Eval(0)
		}
	}
	if i < 3 {
		c.Sample("line", fmt.Sprintf("batches of %d lines", n))
	}
}

// cutSlow uploads in pieces and, perhaps, stops at some point.
func cutSlow(c *core.Case, i int) {
	rng := c.Rng
	keyed, _ := cutSchemas()
	sv := serve(c, keyed.store(c, 1009))
	defer sv.close()
	for r := 0; r < 6; r++ {
		key := fmt.Sprintf("k%dz", r)
		n := rng.Range(2, 40)
		text := cutText(rng, key, n, rng.Pick("\n", "\r\n"), rng.Bool())
		piece := rng.PickInt(3, 30, 300)
		if rng.P(0.3) {
			var b strings.Builder
			n = rng.Range(2, 20)
			for j := 0; j < n; j++ {
				o := cutObs(rng, key, j)
				if rng.P(0.4) {
					o = stretch(rng, o)
				}
				b.WriteString(o.line("1480000000000000", '\t') + "\n")
			}
			text = b.String()
			piece = rng.PickInt(1000, 5000, 70000)
			c.Count("uploads with long lines", 1)
		}
		up := makeUpload(rng, text, rng.Intn(3))
		shown := text
		if len(text) > 3000 {
			shown = text[:3000] + "..."
		}
		stop := len(up.body)
		abort := rng.P(0.6)
		if abort {
			stop = rng.Intn(len(up.body))
		}
		conn := sv.dial(c)
		_, err := conn.Write([]byte(up.head))
		c.Check(err == nil, "sending: %v", err)
		sent := 0
		for _, p := range rng.Split(stop, piece) {
			_, err = conn.Write(up.body[sent : sent+p])
			c.Check(err == nil, "sending: %v", err)
			sent += p
			switch rng.Intn(6) {
			case 0:
				time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
			case 1:
				// stored so far is always a number of whole lines
				max, _ := whole(text, up.got(sent))
				ctx := fmt.Sprintf("upload (%s) of which %d bytes were sent", up.kind, sent)
				k := stored(c, sv, keyed, key, ctx)
				c.Check(k <= max, "%s: %d lines are stored but only %d were sent completely", ctx, k, max)
			}
		}
		ctx := fmt.Sprintf("upload (%s) %q of which %d bytes were sent", up.kind, shown, sent)
		if !abort {
			code, err := readReply(conn)
			c.Check(err == nil && ok2xx(code), "%s gets status %d (%v)", ctx, code, err)
			c.Check(stored(c, sv, keyed, key, ctx) == n, "%s: %d of %d lines are stored", ctx, stored(c, sv, keyed, key, ctx), n)
			conn.Close()
			c.Eval(0)
			continue
		}
		if rng.Bool() {
			halfClose(conn)
			readReply(conn)
		}
		conn.Close()
		time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
		max, _ := whole(text, up.got(sent))
		k := stored(c, sv, keyed, key, ctx)
		c.Check(k <= max, "%s: %d lines are stored but only %d were sent completely", ctx, k, max)
		c.Count("uploads cut off", 1)
		if k > 0 && k < n {
			c.Count("uploads stored in part", 1)
			c.Eval(core.Mix(uint64(n), uint64(k), uint64(sent), uint64(i)))
		} else {
			c.Eval(0)
		}
	}
	rp := sv.post(c, cutObs(rng, "last", 0).line("1", '\t'))
	c.Check(ok2xx(rp.code) && stored(c, sv, keyed, "last", "last") == 1, "after broken uploads an observation gets status %d", rp.code)
}
