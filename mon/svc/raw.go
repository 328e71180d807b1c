package main

import (
	"bufio"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/iand/starbow/internal/verifmon/core"
)

// raw sends a request in one of the forms which HTTP allows but the client of the
// standard library does not use. They all mean the same.
func (r *remote) raw(c *core.Case, rng *core.Rand, req *http.Request, body string, chunked bool) (reply, error) {
	minor := 1
	if rng.P(0.3) {
		minor = 0
	}
	target := req.URL.RequestURI()
	if minor == 1 && rng.P(0.2) {
		target = rng.Pick("http://starbow", "http://starbow:2525", "HTTP://starbow", "http://127.0.0.1:80", "http://user@starbow") + target
	}
	var lines []string
	add := func(k, v string) {
		switch rng.Intn(6) {
		case 0:
			k = strings.ToLower(k)
		case 1:
			k = strings.ToUpper(k)
		}
		lines = append(lines, k+":"+rng.Pick("", " ", "  ", "\t")+v+rng.Pick("", "", "", " ", "\t"))
	}
	if minor == 1 || rng.Bool() {
		add("Host", rng.Pick("starbow", "starbow:2525", "", "localhost", "127.0.0.1:9", "[::1]:80", "EXAMPLE.com", "a.b.c.d.example", "x_y"))
	}
	for k, vs := range req.Header {
		for _, v := range vs {
			add(k, v)
		}
	}
	if rng.P(0.3) {
		add("Connection", rng.Pick("close", "keep-alive", "Close", "TE", "keep-alive, X-Nothing"))
	}
	payload := body
	if body != "" && minor == 1 && chunked {
		add("Transfer-Encoding", rng.Pick("chunked", "Chunked", "CHUNKED"))
		var b strings.Builder
		rest := body
		for _, n := range rng.Split(len(body), rng.PickInt(1, 10, 1000, len(body))) {
			if n == 0 {
				continue
			}
			format := rng.Pick("%x\r\n", "%X\r\n", "%04x\r\n", "%x;ext=1\r\n", "%x; a=\"b\"\r\n", "%x \r\n")
			fmt.Fprintf(&b, format, n)
			b.WriteString(rest[:n] + "\r\n")
			rest = rest[n:]
		}
		b.WriteString(rng.Pick("0\r\n\r\n", "0\r\n\r\n", "00\r\n\r\n", "0;last\r\n\r\n"))
		payload = b.String()
	} else if body != "" || rng.Bool() {
		add("Content-Length", fmt.Sprint(len(body)))
	}
	if body != "" && minor == 1 && rng.P(0.2) {
		add("Expect", rng.Pick("100-continue", "100-Continue"))
	}
	rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	head := fmt.Sprintf("%s %s HTTP/1.%d\r\n%s\r\n", req.Method, target, minor, strings.Join(append(lines, ""), "\r\n"))
	c.Logf("as %q", head)
	conn := r.dial(c)
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	// who asks a question may close the sending side after it
	half := req.Method == "GET" && minor == 1 && (len(target) > 3000 || rng.P(0.1))
	if half {
		c.Count("queries whose sender closed its side", 1)
	}
	go func() {
		// the server may answer before it has read everything
		text := head + payload
		if rng := core.NewRand(uint64(len(text))); rng.P(0.3) {
			for _, n := range rng.Split(len(head), rng.PickInt(1, 40)) {
				io.WriteString(conn, text[:n])
				text = text[n:]
			}
		}
		io.WriteString(conn, text)
		if half {
			halfClose(conn)
		}
	}()
	br := bufio.NewReader(conn)
	for {
		res, err := http.ReadResponse(br, req)
		if err != nil {
			return reply{}, fmt.Errorf("%q: %v", head, err)
		}
		if res.StatusCode == 100 {
			continue
		}
		b, err := io.ReadAll(res.Body)
		if err != nil {
			return reply{}, fmt.Errorf("%q: %v", head, err)
		}
		c.Count("requests in unusual forms", 1)
		return reply{res.StatusCode, string(b), res.Header}, nil
	}
}
