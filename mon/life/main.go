// Command life monitors servers as processes: that they listen, serve through whatever
// clients do, and end when and only when they are told to.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/verifmon/core"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "serve" {
		child(os.Args[2:])
		return
	}
	core.Main(map[string]func(r *core.Run){"C27": checkLife, "C29": checkMemory, "C30": checkTime})
}

func checkLife(r *core.Run) {
	r.Rule = "servers run as processes of their own. end/*: well-behaved and hostile clients are served, signals that ask for nothing are sent, and then one that asks the server to end, early or late, also between the steps of the signal handling (yield point); Serve must return without error and not before. " +
		"leak/*: after clients that abort, stall, send garbage or hang up, the server must serve on, and its goroutines and descriptors must go back to what they were. stall/*: hundreds of clients that all stall at the same point of a request do not keep others from being served. slow/*: clients that take 12 s (40 s in the thorough tier) to send a request are answered like others. fail/*: addresses that cannot be listened on must give an error. program/*: the same of the built program. " +
		"Non-trivial if requests were served before the end. Digest: parameters and counts."
	r.Assum = []string{"answers within 20 s of a request and the end within 20 s of a signal are prompt", "a signal may end the process at once if it comes before the server asks for it"}
	r.Each(r.N(60, 600), "end", lifeEnd)
	r.Each(r.N(24, 200), "leak", lifeLeak)
	r.Each(r.N(14, 70), "stall", lifeStall)
	r.Each(8, "slow", lifeSlow)
	r.Each(r.N(60, 300), "fail", lifeFail)
	r.Seq(1, "default", lifeDefault)
	r.Seq(r.N(6, 40), "program", lifeProgram)
}

const patience = 20 * time.Second

// proc is a running server.
type proc struct {
	c        *core.Case
	cmd      *exec.Cmd
	in       io.WriteCloser
	net      string
	addr     string
	mu       sync.Mutex
	lines    []string
	changed  chan struct{}
	done     chan struct{} // closed when the process has ended
	cl       *http.Client
	tr       *http.Transport
	sent     int // observations acknowledged, by key "canary"
	errOut   bytes.Buffer
	finished bool
}

func launch(c *core.Case, network, addr string, hold int, log bool) *proc {
	l := "log"
	if !log {
		l = "nolog"
	}
	return run(c, network, addr, exec.Command("/proc/self/exe", "serve", network, addr, fmt.Sprint(hold), l))
}

func run(c *core.Case, network, addr string, cmd *exec.Cmd) *proc {
	p := &proc{c: c, cmd: cmd, net: network, addr: addr, changed: make(chan struct{}, 1), done: make(chan struct{})}
	cmd.Stderr = &p.errOut
	out, err := cmd.StdoutPipe()
	if err == nil {
		p.in, err = cmd.StdinPipe()
	}
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			p.mu.Lock()
			p.lines = append(p.lines, sc.Text())
			p.mu.Unlock()
			p.wake()
		}
		cmd.Wait()
		close(p.done)
	}()
	p.tr = &http.Transport{MaxIdleConnsPerHost: 8, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return p.dial() }}
	p.cl = &http.Client{Transport: p.tr, Timeout: patience}
	c.Count("servers started", 1)
	return p
}

func (p *proc) wake() {
	select {
	case p.changed <- struct{}{}:
	default:
	}
}

func (p *proc) dial() (net.Conn, error) {
	a := p.addr
	if p.net != "unix" && strings.HasPrefix(a, ":") {
		a = "127.0.0.1" + a
	}
	return net.DialTimeout(p.net, a, patience)
}

// line returns the n-th line of output with the prefix, or false if there is none in time.
func (p *proc) line(prefix string, n int, d time.Duration) (string, bool) {
	end := time.After(d)
	ended := false
	for {
		k := 0
		p.mu.Lock()
		for _, l := range p.lines {
			if strings.HasPrefix(l, prefix) {
				if k++; k == n {
					p.mu.Unlock()
					return l, true
				}
			}
		}
		p.mu.Unlock()
		if ended {
			return "", false
		}
		select {
		case <-p.changed:
		case <-p.done:
			ended = true
		case <-end:
			return "", false
		}
		p.c.Tick()
	}
}

func (p *proc) has(prefix string) bool {
	_, ok := p.line(prefix, 1, 0)
	return ok
}

// output is everything the server said.
func (p *proc) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := strings.Join(p.lines, "; ")
	select {
	case <-p.done:
		s += fmt.Sprintf("; %v %s", p.cmd.ProcessState, p.errOut.String())
	default:
	}
	return s
}

// kill ends the process if it is still there.
func (p *proc) kill() {
	p.tr.CloseIdleConnections()
	select {
	case <-p.done:
	default:
		p.cmd.Process.Kill()
		<-p.done
	}
}

// up waits until the server can be connected to.
func (p *proc) up() {
	for t := time.Now(); ; {
		conn, err := p.dial()
		if err == nil {
			conn.Close()
			return
		}
		select {
		case <-p.done:
			p.c.Failf("the server on %s %s has ended: %s", p.net, p.addr, p.output())
		case <-time.After(time.Millisecond):
		}
		p.c.Check(time.Since(t) < patience, "the server does not listen on %s %s: %v (%s)", p.net, p.addr, err, p.output())
		p.c.Tick()
	}
}

func (p *proc) request(method, u, ct, body string) (int, string, error) {
	req, err := http.NewRequest(method, "http://server"+u, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	res, err := p.cl.Do(req)
	if err != nil {
		return 0, "", err
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	p.c.Tick()
	return res.StatusCode, string(b), err
}

// canary asks for what was sent so far, sends n observations on a new connection and asks again.
func (p *proc) canary(n int, when string) {
	p.ask(when + ", on an open connection")
	// a client that comes now
	p.tr.CloseIdleConnections()
	for i := 0; i < n; i++ {
		code, body, err := p.request("POST", "/obs", "text/plain", "1\tk=canary\tx=2\n")
		p.c.Check(err == nil && code >= 200 && code < 300, "%s: an observation gets %d %q %v (%s)", when, code, body, err, p.output())
		p.sent++
		p.c.Count("requests served", 1)
	}
	p.ask(when)
}

// ask queries what was sent by canary so far.
func (p *proc) ask(when string) {
	if p.sent == 0 {
		return
	}
	code, body, err := p.request("GET", "/collation/c?q="+url.QueryEscape("select count(*), sum(x) where k='canary'"), "", "")
	want := fmt.Sprintf("k=canary\ncount(*)=%d\nsum(x)=%d\n", p.sent, 2*p.sent)
	p.c.Check(err == nil && code == 200 && body == want, "%s: after %d observations a query gets %d %q %v (%s)", when, p.sent, code, body, err, p.output())
	p.c.Count("requests served", 1)
}

// hostile does one thing that a client should not do.
func (p *proc) hostile(rng *core.Rand, open *[]net.Conn) {
	conn, err := p.dial()
	if err != nil {
		return
	}
	conn.SetDeadline(time.Now().Add(patience))
	p.c.Count("hostile connections", 1)
	keep := false
	switch rng.Intn(9) {
	case 0: // nothing
		keep = rng.Bool()
	case 1: // part of a request
		s := "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n1\tk=a\tx=1\n"
		io.WriteString(conn, s[:rng.Intn(len(s))])
		keep = rng.Bool()
	case 2: // garbage
		conn.Write(rng.Bytes(rng.Range(1, 3000)))
	case 3: // a huge header
		io.WriteString(conn, "GET / HTTP/1.1\r\nHost: x\r\nX: "+strings.Repeat("a", 1<<21))
	case 4: // an upload that never ends
		io.WriteString(conn, "POST /obs HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n")
		for i := rng.Intn(20); i > 0; i-- {
			io.WriteString(conn, "a\r\n1\tk=a\tx=1\n\r\n")
		}
		keep = rng.Bool()
	case 5: // many requests without reading an answer
		io.WriteString(conn, strings.Repeat("GET /collation/c?q=select+count(*)+where+k='canary' HTTP/1.1\r\nHost: x\r\n\r\n", rng.Range(1, 200)))
	case 6: // bad requests
		io.WriteString(conn, rng.Pick("GET\r\n\r\n", "POST /obs HTTP/1.1\r\n\r\n", "GET /obs HTTP/9.9\r\nHost: x\r\n\r\n", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: a/b/c;;\r\nContent-Length: 1\r\n\r\n1", "GET /collation/ HTTP/1.0\r\n\r\n", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 9\r\n\r\n--x\r\n\r\n--"))
		io.CopyN(io.Discard, conn, 1)
	case 7: // bad lines
		s := rng.Pick("\n", "1", "x", "1\tk=a\tx=b", "99999999999999999999999\tk=a", strings.Repeat("1", 70000), "1=", "1\x00\x00\x00", "1\tk", "\xff\xfe")
		fmt.Fprintf(conn, "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(s), s)
		io.CopyN(io.Discard, conn, 1)
	case 8: // bad queries
		q := rng.Pick("", "%00", "select", "select+x+where", "select+count(*)+where+k%3D''", "%zz", "select+count()+where+k='a'", "select+sum(*),uniquecount(x)+where+k='a'", strings.Repeat("select+where+", 500))
		fmt.Fprintf(conn, "GET /collation/c?q=%s HTTP/1.1\r\nHost: x\r\n\r\n", q)
		io.CopyN(io.Discard, conn, 1)
	}
	if keep {
		*open = append(*open, conn)
		return
	}
	if t, ok := conn.(*net.TCPConn); ok && rng.Bool() {
		t.SetLinger(0) // reset
	}
	conn.Close()
}

var places uint32

// place finds somewhere to listen.
func place(c *core.Case, i int) (string, string) {
	if i%2 == 0 {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "life")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return "unix", filepath.Join(dir, "s")
	}
	// An address of its own: ports may be taken by connections of other cases
	n := atomic.AddUint32(&places, 1)
	return "tcp", fmt.Sprintf("127.%d.%d.%d:%d", 1+os.Getpid()%200, n>>8&0xff, n&0xff, 20000+n>>16)
}

var idle = []syscall.Signal{syscall.SIGWINCH, syscall.SIGURG, syscall.SIGCHLD, syscall.SIGCONT}

// unmarked is set once a server has not reported that it has asked for signals.
var unmarked int32

// notified waits until the server has asked for signals. If the code does not mark the
// place (it need not have the hook), it is given some time.
func (p *proc) notified() {
	if atomic.LoadInt32(&unmarked) == 0 {
		if _, ok := p.line("NOTIFIED", 1, patience); ok {
			return
		}
		p.c.Check(!p.has("RETURNED"), "the server has ended without being told to: %s", p.output())
		atomic.StoreInt32(&unmarked, 1)
	}
	p.c.Count("servers that do not mark that they have asked for signals", 1)
	time.Sleep(500 * time.Millisecond)
}

func lifeEnd(c *core.Case, i int) {
	rng := c.Rng
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)]
	early := i%3 == 0
	hold := 0
	if early {
		hold = rng.Range(20, 200)
	}
	network, addr := place(c, rng.Intn(2))
	p := launch(c, network, addr, hold, true)
	defer p.kill()
	p.up()
	p.canary(rng.Range(1, 5), "at the start")
	p.notified()
	var open []net.Conn
	defer func() {
		for _, conn := range open {
			conn.Close()
		}
	}()
	if !early {
		for n := rng.Range(0, 10); n > 0; n-- {
			switch rng.Intn(3) {
			case 0:
				p.hostile(rng, &open)
			case 1:
				p.cmd.Process.Signal(idle[rng.Intn(len(idle))])
				c.Count("signals that ask for nothing", 1)
			case 2:
				p.canary(rng.Range(0, 3), "meanwhile")
			}
		}
		p.canary(1, "later")
		c.Check(!p.has("RETURNED"), "the server has ended without being told to: %s", p.output())
	}
	// clients that go on until the end
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for n := rng.Intn(4); n > 0; n-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if _, _, err := p.request("POST", "/obs", "text/plain", "1\tk=other\tx=2\n"); err != nil {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	if !early && rng.Bool() {
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	}
	times := 1
	if rng.P(0.2) {
		times = rng.Range(2, 4)
	}
	for ; times > 0; times-- {
		p.cmd.Process.Signal(sig)
	}
	l, ok := p.line("RETURNED", 1, patience)
	close(stop)
	wg.Wait()
	c.Check(ok, "signal %v, sent %v, does not end the server in an orderly way: %s", sig, map[bool]string{true: "as soon as it had asked for it", false: "while it was serving"}[early], p.output())
	c.Check(l == "RETURNED", "after signal %v Serve returns an error: %s", sig, l)
	select {
	case <-p.done:
	case <-time.After(patience):
		c.Failf("the process does not end")
	}
	c.Count(fmt.Sprintf("ended by %v", sig), 1)
	c.Eval(core.Mix(uint64(i), uint64(p.sent), uint64(sig)))
	if i < 3 {
		c.Sample("end", fmt.Sprintf("%s, %v, early %v, %d observations before", network, sig, early, p.sent))
	}
}

// stat asks the process for its goroutines and descriptors.
func (p *proc) stat(n int) (g, f int) {
	io.WriteString(p.in, "\n")
	l, ok := p.line("STAT", n, patience)
	p.c.Check(ok, "the process does not react: %s", p.output())
	fmt.Sscanf(l, "STAT %d %d", &g, &f)
	return g, f
}

func lifeLeak(c *core.Case, i int) {
	rng := c.Rng
	network, addr := place(c, i)
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	p.up()
	p.canary(2, "at the start")
	p.notified()
	stats := 0
	settle := func(maxg, maxf int, when string) (int, int) {
		p.tr.CloseIdleConnections()
		var g, f int
		for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
			stats++
			g, f = p.stat(stats)
			if g <= maxg && f <= maxf {
				return g, f
			}
			c.Check(time.Since(t) < patience, "%s the server has %d goroutines and %d descriptors, at the start it had %d and %d", when, g, f, maxg, maxf)
		}
	}
	// the base: the lowest numbers seen in a while without connections
	bg, bf := 1<<30, 1<<30
	for n := 0; n < 5; n++ {
		p.tr.CloseIdleConnections()
		time.Sleep(10 * time.Millisecond)
		stats++
		g, f := p.stat(stats)
		if g < bg {
			bg = g
		}
		if f < bf {
			bf = f
		}
	}
	var open []net.Conn
	for round := rng.Range(1, 3); round > 0; round-- {
		var mu sync.Mutex
		for w := 0; w < 4; w++ {
			rng := rng.Fork()
			c.Go(func() {
				var own []net.Conn
				for n := 0; n < 25; n++ {
					p.hostile(rng, &own)
				}
				mu.Lock()
				open = append(open, own...)
				mu.Unlock()
			})
		}
		c.Wait()
		p.canary(3, fmt.Sprintf("beside %d stalled connections", len(open)))
	}
	for _, conn := range open {
		conn.Close()
	}
	g, f := settle(bg+2, bf+2, "after all clients have gone")
	c.Check(!p.has("RETURNED"), "the server has ended without being told to: %s", p.output())
	p.canary(2, "at the end")
	c.Max("goroutines kept", float64(g-bg))
	c.Max("descriptors kept", float64(f-bf))
	c.Count("stalled connections", len(open))
	c.Eval(core.Mix(uint64(i), uint64(len(open)), uint64(p.sent)))
	if i < 3 {
		c.Sample("leak", fmt.Sprintf("%s, %d stalled connections, %d goroutines before and %d after", network, len(open), bg, g))
	}
}

// stalls are what a client may have sent before it stalls.
var stalls = []struct{ name, sent string }{
	{"before the request", ""},
	{"in the request line", "POST /ob"},
	{"in the headers", "POST /obs HTTP/1.1\r\nHost: x\r\nConte"},
	{"before the body", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nContent-Length: 1000\r\n\r\n"},
	{"between lines", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nContent-Length: 1000\r\n\r\n1\tk=stalled\tx=1\n"},
	{"in a line", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n1\tk=stal"},
	{"in a chunk", "POST /obs HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\na\r\n1\tk=a"},
	{"between chunks", "POST /obs HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n8\r\n1\tk=b\t\n\r\n"},
	{"without reading an answer", strings.Repeat("GET /collation/c?q=select+count(*)+where+k='canary' HTTP/1.1\r\nHost: x\r\n\r\n", 400)},
	{"without reading the answer to an upload", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 7\r\n\r\n1\tk=d\t\n"},
	{"after an answer", "GET /collation/c?q=select+count(*)+where+k='canary' HTTP/1.1\r\nHost: x\r\n\r\n"},
	{"in the second request", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 7\r\n\r\n1\tk=c\t\nPOST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 7\r\n\r\n1\tk"},
	{"in the body of a query", "POST /collation/c HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 1000\r\n\r\nq=sel"},
	{"waiting for leave to send", "POST /obs HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 1000\r\n\r\n"},
}

// lifeStall monitors that clients that stall, however many, do not keep others waiting.
func lifeStall(c *core.Case, i int) {
	rng := c.Rng
	kind := stalls[i%len(stalls)]
	network, addr := place(c, rng.Intn(2))
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	p.up()
	p.canary(1, "at the start")
	want := rng.PickInt(150, 300, 500)
	var open []net.Conn
	for n := 0; n < want; n++ {
		conn, err := p.dial()
		c.Check(err == nil, "with %d clients stalled %s a connection gets %v (%s)", len(open), kind.name, err, p.output())
		conn.SetDeadline(time.Now().Add(time.Second))
		io.WriteString(conn, kind.sent) // not all of it may be taken
		open = append(open, conn)
		if n%64 == 63 {
			c.Tick()
		}
	}
	time.Sleep(20 * time.Millisecond)
	p.canary(2, fmt.Sprintf("beside %d clients stalled %s", len(open), kind.name))
	for _, conn := range open {
		conn.Close()
	}
	p.canary(1, "after the stalled clients have gone")
	c.Check(!p.has("RETURNED"), "the server has ended without being told to: %s", p.output())
	c.Count("clients stalled "+kind.name, len(open))
	c.Eval(core.Mix(uint64(i), uint64(len(open)), uint64(p.sent)))
	if i < 3 {
		c.Sample("stall", fmt.Sprintf("%s, %d clients stalled %s", network, len(open), kind.name))
	}
}

// slows are ways of sending a request that can be sent slowly. The body of the observations is cut into
// pieces of a line each.
var slows = []struct {
	name, head string
	chunked    bool
	body       func(k string, n int) []string
}{
	{"upload of announced length", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n", false, slowLines},
	{"chunked upload", "POST /obs HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", true, slowLines},
	{"form", "POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n", false, func(k string, n int) []string {
		ls := slowLines(k, n)
		for i := range ls {
			ls[i] = url.QueryEscape(ls[i])
		}
		ls[0] = "data=" + ls[0]
		return ls
	}},
	{"query", "POST /collation/c HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n", false, func(k string, n int) []string {
		ls := strings.SplitAfter("q=select+count(*),+sum(x)+where+k='canary'", "")
		for len(ls) > n {
			ls[0] += ls[1]
			ls = append(ls[:1], ls[2:]...)
		}
		return ls
	}},
}

func slowLines(k string, n int) []string {
	var ls []string
	for ; n > 0; n-- {
		ls = append(ls, "1\tk="+k+"\tx=2\n")
	}
	return ls
}

// lifeSlow monitors that a client may take its time.
func lifeSlow(c *core.Case, i int) {
	rng := c.Rng
	network, addr := place(c, i%2)
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	p.up()
	p.canary(2, "at the start")
	span := 12 * time.Second
	if c.Thorough() {
		span = 40 * time.Second
	}
	kind := slows[i%len(slows)]
	if i < len(slows) {
		span = span / 4 * 3
	}
	const pieces = 24
	ps := kind.body("slow", pieces)
	total := 0
	for _, x := range ps {
		total += len(x)
	}
	head := kind.head
	if !kind.chunked {
		head = fmt.Sprintf(head, total)
	}
	conn, err := p.dial()
	c.Check(err == nil, "a connection gets %v (%s)", err, p.output())
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(span + patience))
	begin := time.Now()
	io.WriteString(conn, head)
	for j, x := range ps {
		if kind.chunked {
			x = fmt.Sprintf("%x\r\n%s\r\n", len(x), x)
			if j == len(ps)-1 {
				x += "0\r\n\r\n"
			}
		}
		time.Sleep(begin.Add(span * time.Duration(j+1) / pieces).Sub(time.Now()))
		c.Tick()
		if _, err := io.WriteString(conn, x); err != nil {
			c.Failf("%s that takes %v: the connection is broken after %v: %v (%s)", kind.name, span, time.Since(begin), err, p.output())
		}
	}
	res, err := http.ReadResponse(bufio.NewReader(conn), nil)
	c.Check(err == nil, "%s that takes %v gets no answer: %v (%s)", kind.name, span, err, p.output())
	body, err := io.ReadAll(res.Body)
	c.Check(err == nil && res.StatusCode/100 == 2, "%s that takes %v gets the status %d, %q, %v", kind.name, span, res.StatusCode, body, err)
	if kind.name == "query" {
		c.Check(string(body) == "k=canary\ncount(*)=2\nsum(x)=4\n", "%s that takes %v is answered %q", kind.name, span, body)
	} else {
		_, got, err := p.request("GET", "/collation/c?q="+url.QueryEscape("select count(*), sum(x) where k='slow'"), "", "")
		c.Check(err == nil && got == fmt.Sprintf("k=slow\ncount(*)=%d\nsum(x)=%d\n", pieces, 2*pieces), "after a %s of %d lines that took %v a query gets %q %v", kind.name, pieces, span, got, err)
	}
	p.canary(1, "after a slow client")
	c.Count("slow requests answered", 1)
	c.Eval(core.Mix(31, uint64(i)))
}

func lifeFail(c *core.Case, i int) {
	rng := c.Rng
	var network, addr, why string
	var l net.Listener
	switch i % 6 {
	case 0, 1:
		network, addr = place(c, i)
		var err error
		l, err = net.Listen(network, addr)
		if err != nil {
			c.Eval(0)
			return
		}
		defer l.Close()
		why = "is in use"
	case 2:
		network, addr, why = "tcp", rng.Pick("127.0.0.1:99999", "127.0.0.1", "127.0.0.1:no-such-service", "a:b:c", "127.0.0.1:-1", "1.2.3.4.5:80"), "is invalid"
	case 3:
		network, addr, why = rng.Pick("tpc", "x", "TCP", " ", "ip"), "127.0.0.1:0", "has an unknown network"
	case 4:
		network, addr, why = "unix", filepath.Join(os.Getenv("VERIF_WORK"), "no", "such", "folder"), "cannot be made"
	case 5:
		network, addr, why = "tcp", "192.0.2.1:0", "is not of this machine"
	}
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	ret, ok := p.line("RETURNED", 1, patience)
	c.Check(ok, "Serve on %s %q, which %s, does not return: %s", network, addr, why, p.output())
	c.Check(ret != "RETURNED", "Serve on %s %q, which %s, returns no error", network, addr, why)
	c.Check(!p.has("NOTIFIED"), "Serve on %s %q, which %s, goes on", network, addr, why)
	c.Count("servers that could not listen", 1)
	c.Eval(core.Mix(uint64(i%6), core.HashBytes([]byte(addr))))
	if i < 6 {
		c.Sample("fail", fmt.Sprintf("%s %q: %s", network, addr, ret))
	}
}

// free waits until nothing listens on the default port.
func free(c *core.Case) {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", ":2525")
		if err == nil {
			l.Close()
			return
		}
		if i > 300 {
			fmt.Fprintln(os.Stderr, "port 2525 is in use:", err)
			os.Exit(3)
		}
		c.Tick()
		time.Sleep(100 * time.Millisecond)
	}
}

// lifeDefault checks a server with no address: it listens on port 2525.
func lifeDefault(c *core.Case, i int) {
	for n, a := range [][2]string{{"", ""}, {"tcp", ""}, {"", ":2525"}} {
		free(c)
		p := launch(c, a[0], a[1], 0, n%2 == 0)
		p.net, p.addr = "tcp", "127.0.0.1:2525"
		func() {
			defer p.kill()
			p.up()
			p.canary(3, fmt.Sprintf("with network %q and address %q", a[0], a[1]))
		}()
		c.Eval(uint64(n + 1))
	}
}

func lifeProgram(c *core.Case, i int) {
	rng := c.Rng
	free(c)
	exe := filepath.Join(os.Getenv("VERIF_WORK"), "starbow")
	if i%3 == 0 {
		l, err := net.Listen("tcp", ":2525")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer l.Close()
		p := run(c, "tcp", "127.0.0.1:2525", exec.Command(exe))
		defer p.kill()
		select {
		case <-p.done:
		case <-time.After(patience):
			c.Failf("the program does not end although it cannot listen on its port: %s", p.output())
		}
		c.Check(p.cmd.ProcessState.ExitCode() > 0, "the program cannot listen on its port but reports success: %s", p.output())
		c.Check(p.errOut.Len() > 0, "the program cannot listen on its port but does not say so: %s", p.output())
		c.Count("programs that could not listen", 1)
		c.Eval(core.Mix(uint64(i), 1))
		return
	}
	// A signal may end the process at once if it comes before the server asks for it.
	// Unless it always does so, that is why.
	for _, wait := range []int{rng.Range(300, 500), 2000, 5000} {
		free(c)
		if programEnd(c, exec.Command(exe), []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[i%2], wait, wait == 5000) {
			break
		}
	}
	c.Eval(core.Mix(uint64(i), 2))
}

func programEnd(c *core.Case, cmd *exec.Cmd, sig syscall.Signal, wait int, last bool) bool {
	rng := c.Rng
	p := run(c, "tcp", "127.0.0.1:2525", cmd)
	defer p.kill()
	p.up()
	for n := rng.Range(1, 5); n > 0; n-- {
		code, body, err := p.request("POST", "/obs", "text/plain", "1\tcountry=x\tiata=A\theight=1\ttz=z\n")
		c.Check(err == nil && code >= 200 && code < 300, "an observation gets %d %q %v (%s)", code, body, err, p.output())
		c.Count("requests served", 1)
	}
	time.Sleep(time.Duration(wait) * time.Millisecond)
	select {
	case <-p.done:
		c.Failf("the program has ended without being told to: %s", p.output())
	default:
	}
	p.cmd.Process.Signal(sig)
	select {
	case <-p.done:
	case <-time.After(patience):
		c.Failf("signal %v does not end the program", sig)
	}
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == sig && !last {
		return false
	}
	c.Check(p.cmd.ProcessState.ExitCode() == 0, "signal %v does not end the program in an orderly way: %s", sig, p.output())
	c.Count(fmt.Sprintf("programs ended by %v", sig), 1)
	return true
}
