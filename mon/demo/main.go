// Command demo monitors the program as shipped, loaded with the airport data.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/exact"
)

func main() {
	core.Main(map[string]func(r *core.Run){"C24": checkDemo})
}

const base = "http://127.0.0.1:2525"

type airport struct {
	line   string // as in the data set
	fields map[string]string
}

var lineRe = regexp.MustCompile(`^curl -X POST --data "data=(.*)" http://127\.0\.0\.1:2525/obs$`)

func load() []airport {
	repo := os.Getenv("VERIF_REPO")
	b, err := os.ReadFile(filepath.Join(repo, "misc", "airports.sh"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var as []airport
	for _, l := range strings.Split(string(b), "\n") {
		m := lineRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		a := airport{line: m[1], fields: map[string]string{}}
		for _, p := range strings.Split(m[1], "|")[1:] {
			if i := strings.IndexByte(p, '='); i >= 0 {
				a.fields[p[:i]] = p[i+1:]
			}
		}
		if len(a.fields) == 5 {
			as = append(as, a)
		}
	}
	if len(as) < 6000 {
		fmt.Fprintf(os.Stderr, "only %d airports in the data set\n", len(as))
		os.Exit(3)
	}
	return as
}

// instance is the model of one country or time zone.
type instance struct {
	n      int
	height []float64
	sets   map[string]map[string]bool
}

type model map[string]map[string]*instance // by collation and key

func newModel() model {
	return model{"country": {}, "tz": {}}
}

func (m model) add(a airport) {
	for coll, insts := range m {
		k := a.fields[coll]
		in := insts[k]
		if in == nil {
			in = &instance{sets: map[string]map[string]bool{"iata": {}, "country": {}, "height": {}}}
			insts[k] = in
		}
		in.n++
		h, err := strconv.ParseFloat(a.fields["height"], 64)
		if err != nil {
			panic(err)
		}
		in.height = append(in.height, h)
		for f, set := range in.sets {
			set[a.fields[f]] = true
		}
	}
}

var asks = map[string][]string{
	"country": {"count(*)", "mean(height)", "sum(height)", "var(height)", "max(height)", "min(height)", "uniquecount(iata)"},
	"tz":      {"count(*)", "uniquecount(country)", "uniquecount(height)"},
}

var precision = map[string]float64{"iata": 10, "country": 8, "height": 8}

func checkDemo(r *core.Run) {
	r.Rule = "each case starts the built program, posts airports of the data set (all or a subset, in random order, perhaps some twice, by several clients, one per request as in misc/airports.sh or in batches of each encoding) and compares the answers for every country and time zone with statistics computed from the data; all cases are non-trivial. Digest: airports sent and their order."
	r.Assum = []string{"values with quotes cannot be queried (Cote d'Ivoire)", "unique counts may be off by five standard errors of the configured precision"}
	as := load()
	r.Seq(r.N(4, 40), "all", func(c *core.Case, i int) { demo(c, i, as, len(as)) })
	r.Seq(r.N(60, 800), "subset", func(c *core.Case, i int) {
		demo(c, i, as, c.Rng.PickInt(1, 2, 5, 20, 100, 500, 2000))
	})
	r.Seq(r.N(8, 80), "running", func(c *core.Case, i int) { running(c, i, as) })
	r.Seq(1, "published", func(c *core.Case, i int) { published(c, as) })
}

type program struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	done chan struct{}
	cl   *http.Client
	tr   *http.Transport
}

// start runs the program and waits until it listens.
func start(c *core.Case) *program {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", ":2525")
		if err == nil {
			l.Close()
			break
		}
		if i > 300 {
			fmt.Fprintln(os.Stderr, "port 2525 is in use:", err)
			os.Exit(3)
		}
		c.Tick()
		time.Sleep(100 * time.Millisecond)
	}
	p := &program{cmd: exec.Command(filepath.Join(os.Getenv("VERIF_WORK"), "starbow")), done: make(chan struct{})}
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{}
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	p.tr = &http.Transport{MaxIdleConnsPerHost: 32}
	p.cl = &http.Client{Transport: p.tr}
	for i := 0; ; i++ {
		conn, err := net.Dial("tcp", "127.0.0.1:2525")
		if err == nil {
			conn.Close()
			return p
		}
		select {
		case <-p.done:
			c.Failf("the program ends at once: %s", p.out.String())
		case <-time.After(2 * time.Millisecond):
		}
		c.Tick()
		if i > 7500 {
			p.stop()
			c.Failf("the program does not listen on port 2525: %v", err)
		}
	}
}

func (p *program) stop() {
	p.tr.CloseIdleConnections()
	p.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-p.done:
	case <-time.After(2 * time.Second):
		p.cmd.Process.Kill()
		<-p.done
	}
}

func (p *program) do(c *core.Case, method, u, ct, body string) (int, string) {
	req, err := http.NewRequest(method, base+u, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	res, err := p.cl.Do(req)
	if err != nil {
		select {
		case <-p.done:
			c.Failf("the program has ended: %s", p.out.String())
		default:
		}
		c.Failf("%s %s gets no response: %v", method, u, err)
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	c.Check(err == nil, "%s %s: response is broken off: %v", method, u, err)
	c.Tick()
	return res.StatusCode, string(b)
}

// send posts the airports.
func (p *program) send(c *core.Case, rng *core.Rand, as []airport, style int) {
	for len(as) > 0 {
		n := 1
		if style > 1 {
			n = rng.Range(1, 200)
			if n > len(as) {
				n = len(as)
			}
		}
		var b strings.Builder
		for i, a := range as[:n] {
			if i > 0 {
				b.WriteByte('\n')
			}
			b.WriteString(a.line)
		}
		as = as[n:]
		text, ct := b.String(), "text/plain"
		switch style {
		case 0: // as curl --data does in misc/airports.sh
			ct = "application/x-www-form-urlencoded"
			if strings.ContainsAny(text, "%&;+") {
				text = url.QueryEscape(text)
			}
			text = "data=" + text
		case 1, 2:
			ct, text = "application/x-www-form-urlencoded", "data="+url.QueryEscape(text)
		case 3:
			ct = "application/octet-stream"
		}
		code, body := p.do(c, "POST", "/obs", ct, text)
		c.Check(code >= 200 && code < 300, "%q is refused: %d %s", text, code, body)
	}
}

// ask queries the instance and returns the values in the order asked for.
func (p *program) ask(c *core.Case, coll, key string, ms []string) []string {
	q := "select " + strings.Join(ms, ", ") + " where " + coll + "='" + key + "'"
	code, body := p.do(c, "GET", "/collation/"+coll+"?q="+url.QueryEscape(q), "", "")
	c.Check(code == 200, "query %q: status %d %s", q, code, body)
	head := coll + "=" + key + "\n"
	c.Check(strings.HasPrefix(body, head), "query %q: response %q", q, body)
	var vs []string
	for i, l := range strings.Split(strings.TrimSuffix(body[len(head):], "\n"), "\n") {
		if l == "" {
			continue
		}
		c.Check(i < len(ms) && strings.HasPrefix(l, ms[i]+"="), "query %q: response %q", q, body)
		vs = append(vs, l[len(ms[i])+1:])
	}
	return vs
}

// grouped is the order in which measures are answered.
func grouped(ms []string) []string {
	var out []string
	done := map[string]bool{}
	for _, m := range ms {
		f := m[strings.IndexByte(m, '('):]
		if done[f] {
			continue
		}
		done[f] = true
		for _, n := range ms {
			if strings.HasSuffix(n, f) {
				out = append(out, n)
			}
		}
	}
	return out
}

func (in *instance) check(c *core.Case, ctx, mf, text string) {
	got, err := strconv.ParseFloat(text, 64)
	c.Check(err == nil, "%s: %s is %q", ctx, mf, text)
	i := strings.IndexByte(mf, '(')
	m, f := mf[:i], mf[i+1:len(mf)-1]
	st := exact.Of(in.height)
	ok := true
	want := ""
	switch m {
	case "count":
		ok, want = got == float64(in.n), fmt.Sprint(in.n)
	case "sum":
		ok, want = st.SumOK(got), fmt.Sprint(st.Sum())
	case "mean":
		ok, want = st.MeanOK(got), fmt.Sprint(st.Mean())
	case "var":
		if len(in.height) > 1 {
			ok, want = st.VarOK(got), fmt.Sprint(st.Var())
		} else {
			ok, want = math.IsNaN(got), "NaN"
		}
	case "max":
		ok, want = got == st.Max, fmt.Sprint(st.Max)
	case "min":
		ok, want = got == st.Min, fmt.Sprint(st.Min)
	case "uniquecount":
		n := float64(len(in.sets[f]))
		tol := 5*1.04/math.Sqrt(math.Pow(2, precision[f]))*n + 1
		if n <= 1 {
			tol = 0
		}
		ok, want = math.Abs(got-n) <= tol, fmt.Sprintf("%v +- %v", n, tol)
		if n > 20 {
			c.Max("relative error of unique counts", math.Abs(got-n)/n)
		}
	}
	c.Check(ok, "%s: %s is %s, want %s (%d airports)", ctx, mf, text, want, in.n)
}

// verify compares the answers for all instances, or those for which the filter holds.
func (p *program) verify(c *core.Case, rng *core.Rand, m model, absent []airport) {
	n := 0
	for _, coll := range []string{"country", "tz"} {
		var keys []string
		for k := range m[coll] {
			if !strings.ContainsRune(k, '\'') {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			ms := append([]string{}, asks[coll]...)
			rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			ms = grouped(ms[:rng.Range(1, len(ms))])
			if rng.P(0.5) {
				ms = grouped(asks[coll])
			}
			vs := p.ask(c, coll, k, ms)
			c.Check(len(vs) == len(ms), "%s %q: %q answered by %q", coll, k, ms, vs)
			for i, v := range vs {
				m[coll][k].check(c, coll+" "+k, ms[i], v)
				n++
			}
		}
		c.Count("instances compared", len(keys))
		// places without airports have no values
		for i := 0; i < 20 && len(absent) > 0; i++ {
			k := absent[rng.Intn(len(absent))].fields[coll]
			if i%4 == 3 {
				k = rng.Pick("Atlantis", "france", "France ", "", "Unit", "Europe/Pariss")
			}
			if m[coll][k] == nil && !strings.ContainsRune(k, '\'') {
				vs := p.ask(c, coll, k, asks[coll])
				c.Check(len(vs) == 0, "%s %q has no airports but the values %q", coll, k, vs)
				c.Count("absent instances queried", 1)
			}
		}
	}
	c.Count("values compared", n)
}

func pick(rng *core.Rand, as []airport, n int) []airport {
	out := append([]airport{}, as...)
	if n < 100 && rng.Bool() {
		// few places with many airports each
		k := rng.Pick("country", "tz")
		v := as[rng.Intn(len(as))].fields[k]
		out = out[:0]
		for _, a := range as {
			if a.fields[k] == v || rng.Intn(len(as)) < 20 {
				out = append(out, a)
			}
		}
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if n < len(out) {
		out = out[:n]
	}
	for rng.P(0.3) { // some arrive again
		out = append(out, out[rng.Intn(len(out))])
	}
	return out
}

func digest(as []airport) uint64 {
	h := uint64(24)
	for _, a := range as {
		h = core.Mix(h, core.HashBytes([]byte(a.line)))
	}
	return h
}

func demo(c *core.Case, i int, all []airport, n int) {
	rng := c.Rng
	as := pick(rng, all, n)
	if n == len(all) && i == 0 {
		as = append([]airport{}, all...) // in the order of the file
	}
	p := start(c)
	defer p.stop()
	clients := rng.PickInt(1, 1, 2, 4, 8)
	for w := 0; w < clients; w++ {
		w, rng := w, rng.Fork()
		c.Go(func() {
			var mine []airport
			for j := w; j < len(as); j += clients {
				mine = append(mine, as[j])
			}
			style := rng.Intn(5)
			if i == 0 {
				style = 0
			}
			p.send(c, rng, mine, style)
		})
	}
	c.Wait()
	m := newModel()
	for _, a := range as {
		m.add(a)
	}
	p.verify(c, rng, m, all)
	c.Count("airports sent", len(as))
	c.Eval(digest(as))
	if i < 2 {
		c.Sample("load", fmt.Sprintf("%d airports by %d clients, first %q", len(as), clients, as[0].line))
	}
}

// running queries between the batches of a load.
func running(c *core.Case, i int, all []airport) {
	rng := c.Rng
	p := start(c)
	defer p.stop()
	m := newModel()
	var sent []airport
	for j := 0; j < 8; j++ {
		as := pick(rng, all, rng.PickInt(1, 3, 30, 300))
		p.send(c, rng, as, rng.Intn(5))
		for _, a := range as {
			m.add(a)
		}
		sent = append(sent, as...)
		p.verify(c, rng, m, all)
	}
	c.Count("airports sent", len(sent))
	c.Eval(digest(sent))
}

// published asks the queries of misc/queries.sh in the spelling used there.
func published(c *core.Case, all []airport) {
	p := start(c)
	defer p.stop()
	p.send(c, c.Rng, all, 2)
	m := newModel()
	for _, a := range all {
		m.add(a)
	}
	for _, q := range []struct {
		coll, key string
		ms        []string
	}{
		{"country", "Spain", []string{"mean(height)", "max(height)"}},
		{"country", "France", []string{"count(*)"}},
		{"country", "United States", []string{"min(height)"}},
		{"tz", "Asia/Chongqing", []string{"uniquecount(country)"}},
		{"country", "United States", []string{"uniquecount(iata)"}},
	} {
		u := "/collation/" + q.coll + "?q=select+" + strings.Join(q.ms, ",+") + "+where+" + q.coll + "='" + strings.Replace(q.key, " ", "+", -1) + "'"
		code, body := p.do(c, "GET", u, "", "")
		lines := strings.Split(strings.TrimSuffix(body, "\n"), "\n")
		c.Check(code == 200 && len(lines) == len(q.ms)+1 && lines[0] == q.coll+"="+q.key, "%s: status %d, %q", u, code, body)
		for i, f := range q.ms {
			c.Check(strings.HasPrefix(lines[i+1], f+"="), "%s: %q", u, body)
			m[q.coll][q.key].check(c, u, f, lines[i+1][len(f)+1:])
		}
		c.Count("published queries asked", 1)
		c.Eval(core.HashBytes([]byte(u)))
	}
}
