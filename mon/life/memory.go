package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/url"
	"strings"
	"time"

	"github.com/iand/starbow/internal/verifmon/core"
)

func checkMemory(r *core.Run) {
	r.Rule = "servers run as processes of their own and report the live heap (after two collections) and the peak of their memory. keep/*: after a first round of requests of one kind (ever new key values, field names, field values, rejected lines, queries, measures, collations, malformed requests, connections) further rounds must leave no more behind. " +
		"upload/*: while uploads of up to hundreds of megabytes come in, as lines, as one endless line, with a length or chunked, the memory of the process stays below a bound that does not depend on the upload. Non-trivial if requests were answered. Digest: kind and counts."
	r.Assum = []string{"256 KB and 4 bytes for each of tens of thousands of requests or lines are noise", "64 MB above the start are a bounded part of an upload of at least 160 MB"}
	r.Each(r.N(len(keeps), 4*len(keeps)), "keep", memKeep)
	r.Each(r.N(8, 40), "upload", memUpload)
}

// usage is the live heap and the peak memory of the process, and how many goroutines and
// open files it has. Connections must be closed.
func (p *proc) usage(n *int) (heap, peak, held int) {
	*n++
	io.WriteString(p.in, "\n")
	l, ok := p.line("STAT", *n, patience)
	p.c.Check(ok, "the process does not react: %s", p.output())
	var g, f int
	fmt.Sscanf(l, "STAT %d %d %d %d", &g, &f, &heap, &peak)
	return heap, peak, g + f
}

// batch sends lines and returns the status.
func (p *proc) batch(lines []string, form bool) int {
	ct, body := "text/plain", strings.Join(lines, "\n")
	if form {
		ct, body = "application/x-www-form-urlencoded", "data="+url.QueryEscape(body)
	}
	code, _, err := p.request("POST", "/obs", ct, body)
	p.c.Check(err == nil, "an upload gets %v (%s)", err, p.output())
	return code
}

func (p *proc) get(target string) int {
	code, _, err := p.request("GET", target, "", "")
	p.c.Check(err == nil, "a query gets %v (%s)", err, p.output())
	return code
}

// keeps are kinds of requests. Each is given a number no request had before and
// returns how many things it stands for.
var keeps = []struct {
	name string
	n    int // requests per round, times 3
	do   func(p *proc, x int) int
}{
	{"lines of new instances", 120, func(p *proc, x int) int {
		var ls []string
		for i := 0; i < 100; i++ {
			ls = append(ls, fmt.Sprintf("1\tk=instance-%d-%d\tx=1\tu=2", x, i))
		}
		p.batch(ls, x%7 == 0)
		for i := 0; i < 9; i++ {
			p.batch(ls[i*11:i*11+1], false) // the batch may have been refused
		}
		return 10
	}},
	{"lines with new values", 200, func(p *proc, x int) int {
		var ls []string
		for i := 0; i < 100; i++ {
			ls = append(ls, fmt.Sprintf("%d\tk=a\tx=%d.%d5\tu=value-%d-%d", 1480000000000000+x*1000+i, i, x, x, i))
		}
		p.c.Check(p.batch(ls, x%7 == 0) < 300, "lines %q are rejected", ls)
		return 100
	}},
	{"lines with new fields", 200, func(p *proc, x int) int {
		var ls []string
		for i := 0; i < 100; i++ {
			ls = append(ls, fmt.Sprintf("1\tk=a\tfield-%d-%d=1\tx=1\tname%d%d", x, i, i, x))
		}
		p.c.Check(p.batch(ls, x%7 == 0) < 300, "lines %q are rejected", ls)
		return 100
	}},
	{"lines without a key", 200, func(p *proc, x int) int {
		var ls []string
		for i := 0; i < 100; i++ {
			ls = append(ls, fmt.Sprintf("1\tx=%d\tu=value-%d-%d", i, x, i))
		}
		p.c.Check(p.batch(ls, x%7 == 0) < 300, "lines %q are rejected", ls)
		return 100
	}},
	{"rejected lines", 4000, func(p *proc, x int) int {
		l := []string{fmt.Sprintf("1\tk=a\tx=text-%d", x), fmt.Sprintf("line-%d", x), fmt.Sprintf("1\tk=new-%d\tx=text", x), fmt.Sprintf("9999999999999999999%d\tk=a", x%10), "1\tk=a\tx=" + strings.Repeat(fmt.Sprint(x), 100) + "e"}[x%5]
		p.c.Check(p.batch([]string{l}, false) >= 400, "line %q is accepted", l)
		return 1
	}},
	{"queries for new instances", 4000, func(p *proc, x int) int {
		p.get("/collation/c?q=" + url.QueryEscape(fmt.Sprintf("select count(*), sum(x), uniquecount(u) where k='instance-%d'", x)))
		return 1
	}},
	{"queries with new text", 4000, func(p *proc, x int) int {
		p.get("/collation/c?q=" + url.QueryEscape(fmt.Sprintf("select measure-%d(field-%d), count(*) where k='a' and other-%d='%d'", x, x, x, x)))
		return 1
	}},
	{"malformed queries", 4000, func(p *proc, x int) int {
		p.get("/collation/c?q=" + url.QueryEscape(fmt.Sprintf("select everything-%d", x)) + fmt.Sprintf("&p%d=%d", x, x))
		return 1
	}},
	{"unknown collations and paths", 4000, func(p *proc, x int) int {
		p.get(fmt.Sprintf([]string{"/collation/c%d?q=select+count(*)+where+k='a'", "/path/%d", "/obs?x=%d", "/collation/a/%d", "/collation/c-%d"}[x%5], x))
		return 1
	}},
	{"odd uploads", 4000, func(p *proc, x int) int {
		ct := []string{fmt.Sprintf("text/x%d", x), fmt.Sprintf("text/plain; charset=c%d", x), fmt.Sprintf("multipart/form-data; boundary=b%d", x), "application/x-www-form-urlencoded", fmt.Sprintf(";%d", x)}[x%5]
		code, _, err := p.request("POST", "/obs", ct, fmt.Sprintf("data%d=1", x))
		p.c.Check(err == nil && code > 0, "an upload of type %q gets %v", ct, err)
		return 1
	}},
	{"connections", 1500, func(p *proc, x int) int {
		p.tr.CloseIdleConnections()
		conn, err := p.dial()
		p.c.Check(err == nil, "a connection gets %v (%s)", err, p.output())
		conn.SetDeadline(time.Now().Add(patience))
		switch x % 4 {
		case 0:
			fmt.Fprintf(conn, "GET /collation/c?q=select+count(*)+where+k='a' HTTP/1.1\r\nHost: host%d\r\nUser-Agent: agent-%d\r\nX-Forwarded-For: 10.%d.%d.1\r\nCookie: id=%d\r\nConnection: close\r\n\r\n", x, x, x/250%250, x%250, x)
			io.Copy(io.Discard, conn)
		case 1:
			fmt.Fprintf(conn, "POST /obs HTTP/1.1\r\nHost: host%d\r\nAuthorization: user-%d\r\nContent-Length: 10\r\nConnection: close\r\n\r\n1\tk=a\tx=%d\n", x, x, x%10)
			io.Copy(io.Discard, conn)
		case 2:
			fmt.Fprintf(conn, "POST /obs HTTP/1.1\r\nHost: host%d\r\nContent-Length: 100\r\n\r\n1\tk=a\tx=%d\n", x, x)
		}
		conn.Close()
		return 1
	}},
	{"clients that hang up", 60, func(p *proc, x int) int {
		// the upload is complete, but its sender does not wait until it was read
		body := "data=" + strings.Repeat("1%09x%3D1%0A", 20000)
		conn, err := p.dial()
		p.c.Check(err == nil, "a connection gets %v (%s)", err, p.output())
		conn.SetDeadline(time.Now().Add(patience))
		fmt.Fprintf(conn, "POST /obs HTTP/1.1\r\nHost: host%d\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s", x, len(body), body)
		conn.Close()
		return 1
	}},
}

// memKeep monitors that requests leave nothing behind.
func memKeep(c *core.Case, i int) {
	rng := c.Rng
	kind := keeps[i%len(keeps)]
	network, addr := place(c, rng.Intn(2))
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	p.up()
	p.canary(1, "at the start")
	stats, x, things := 0, 0, 0
	round := func() {
		for n := 0; n < 3*kind.n; n++ {
			things += kind.do(p, x)
			x++
		}
	}
	measure := func(max, maxg int, when string) (int, int) {
		p.tr.CloseIdleConnections()
		var h, g int
		for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			h, _, g = p.usage(&stats)
			if h <= max && g <= maxg || time.Since(t) > 4*time.Second {
				break
			}
		}
		c.Check(h <= max, "%s the server holds %d bytes, allowed are %d", when, h, max)
		c.Check(g <= maxg, "%s the server has %d goroutines and open files, allowed are %d", when, g, maxg)
		return h, g
	}
	round()
	p.canary(1, "after a round")
	base, baseg := 0, 0
	for n := 0; n < 6; n++ { // the largest of some
		h, g := measure(1<<40, 1<<40, "")
		if h > base {
			base = h
		}
		if g > baseg {
			baseg = g
		}
	}
	things = 0
	last := 0
	for n := 1; n <= 4; n++ {
		round()
		p.canary(1, "after a round")
		if n == 4 {
			last, _ = measure(base+256<<10+4*things, baseg+40, fmt.Sprintf("after %d more %s (%d bytes were held before)", things, kind.name, base))
		}
	}
	c.Count(kind.name, things)
	c.Max("growth of the live heap over four rounds, bytes", float64(last-base))
	c.Eval(core.Mix(uint64(i), uint64(things)))
	if i < len(keeps) {
		c.Sample("keep", fmt.Sprintf("%s: %d things in %d requests, the live heap went from %d to %d bytes", kind.name, things, 12*kind.n, base, last))
	}
}

// memUpload monitors the peak of the memory during large uploads.
func memUpload(c *core.Case, i int) {
	rng := c.Rng
	network, addr := place(c, rng.Intn(2))
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	p.up()
	p.canary(1, "at the start")
	stats := 0
	heap0, peak0, _ := p.usage(&stats)
	size := rng.Range(160, 200) << 20
	conn, err := p.dial()
	c.Check(err == nil, "a connection gets %v", err)
	defer conn.Close()
	var block []byte
	kind := []string{"lines of 1000 bytes", "lines of 60000 bytes", "one endless line", "lines without a key"}[i%4]
	for j := 0; len(block) < 1<<20; j++ {
		switch i % 4 {
		case 0:
			block = append(block, fmt.Sprintf("1\tk=big\tx=%d\tpad=%s\n", j%10, strings.Repeat("y", rng.Range(900, 1000)))...)
		case 1:
			block = append(block, fmt.Sprintf("1\tk=big\tx=%d\tpad=%s\n", j%10, strings.Repeat("y", 60000))...)
		case 2:
			block = append(block, "1\tk=big\tx=1\tpad="...)
		case 3:
			block = append(block, fmt.Sprintf("1\tx=%d\tpad=%s\n", j%10, strings.Repeat("y", 2000))...)
		}
	}
	blocks := size / len(block)
	chunked := i/4%2 == 1
	lines := bytes.Count(block, []byte("\n")) * blocks
	w := func(b []byte) bool {
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, err := conn.Write(b)
		c.Tick()
		return err == nil
	}
	done := make(chan int, 1)
	go func(conn net.Conn) {
		code, err := readStatus(conn)
		if err != nil {
			code = -1
		}
		done <- code
	}(conn)
	head := fmt.Sprintf("POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n", blocks*len(block))
	if chunked {
		head = "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n"
	}
	ok := w([]byte(head))
	for n := 0; n < blocks && ok; n++ {
		if chunked {
			ok = w([]byte(fmt.Sprintf("%x\r\n", len(block)))) && w(block) && w([]byte("\r\n"))
		} else {
			ok = w(block)
		}
		if n == blocks/2 {
			p.canary(1, "during a large upload")
		}
	}
	if ok && chunked {
		ok = w([]byte("0\r\n\r\n"))
	}
	var code int
	select {
	case code = <-done:
	case <-time.After(90 * time.Second):
		c.Failf("an upload of %d MB (%s) gets no answer in 90 s", size>>20, kind)
	}
	what := fmt.Sprintf("an upload of %d MB (%s, chunked %v, status %d)", size>>20, kind, chunked, code)
	if i%4 != 2 {
		c.Check(ok && code >= 200 && code < 300, "%s is not accepted", what)
	}
	conn.Close()
	p.canary(1, "after a large upload")
	if i%4 < 2 {
		_, body, err := p.request("GET", "/collation/c?q="+url.QueryEscape("select count(*) where k='big'"), "", "")
		c.Check(err == nil && body == fmt.Sprintf("k=big\ncount(*)=%v\n", float64(lines)), "%s of %d lines: a query answers %q (%v)", what, lines, body, err)
	}
	_, peak, _ := p.usage(&stats)
	c.Check(peak > 0 && peak0 > 0, "the peak is not known")
	c.Check(peak-peak0 <= 64<<20, "during %s the memory of the server grew from %d to %d MB", what, peak0>>20, peak>>20)
	c.Max("growth of the memory during a large upload, MB", float64((peak-peak0)>>20))
	p.tr.CloseIdleConnections()
	var heap int
	for t := time.Now(); time.Since(t) < 4*time.Second; time.Sleep(20 * time.Millisecond) {
		if heap, _, _ = p.usage(&stats); heap <= heap0+1<<20 {
			break
		}
	}
	c.Check(heap <= heap0+1<<20, "after %s the server holds %d bytes, before it held %d", what, heap, heap0)
	c.Count("megabytes uploaded", size>>20)
	c.Eval(core.Mix(uint64(i), uint64(size)))
	if i < 8 {
		c.Sample("upload", fmt.Sprintf("%s: memory %d to %d MB", what, peak0>>20, peak>>20))
	}
}
