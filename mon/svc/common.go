package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/exact"
)

// kv is a field and its value.
type kv struct{ f, v string }

// obs is an observation.
type obs []kv

func (o obs) get(f string) (string, bool) {
	for _, p := range o {
		if p.f == f {
			return p.v, true
		}
	}
	return "", false
}

// line is the observation in the text format.
func (o obs) line(ts string, delim byte) string {
	b := []byte(ts)
	for _, p := range o {
		b = append(b, delim)
		b = append(b, p.f...)
		b = append(b, '=')
		b = append(b, p.v...)
	}
	return string(b)
}

func (o obs) row() collation.Row {
	r := collation.Row{ReceiveTime: time.Unix(1500000000, 0), DataTime: time.Unix(1400000000, 0)}
	for _, p := range o {
		r.Data = append(r.Data, collation.FV{F: []byte(p.f), V: []byte(p.v)})
	}
	return r
}

// fieldSpec is a measured field. A measure is the name of a measure; uniquecount is
// followed by a colon and its precision.
type fieldSpec struct {
	name string
	ms   []string
}

// schema describes a collation.
type schema struct {
	name   string
	keys   []string
	rec    int // number of count measures of the record
	fields []fieldSpec
}

var contMeasures = []string{"count", "sum", "mean", "var", "max", "min"}

func measureOf(m string) collation.Measure {
	switch m {
	case "count":
		return collation.Count{}
	case "sum":
		return collation.Sum{}
	case "mean":
		return collation.Mean{}
	case "var":
		return collation.Variance{}
	case "max":
		return collation.Max{}
	case "min":
		return collation.Min{}
	}
	p, err := strconv.Atoi(strings.TrimPrefix(m, "uniquecount:"))
	if err != nil {
		panic(m)
	}
	return collation.Cardinality{Precision: p}
}

func isUnique(m string) bool { return strings.HasPrefix(m, "uniquecount") }

func (s *schema) String() string {
	return fmt.Sprintf("%s(keys %q, %d record counts, fields %q)", s.name, s.keys, s.rec, s.fields)
}

func (s *schema) source() collation.Schema {
	sch := collation.Schema{Name: s.name}
	for _, k := range s.keys {
		sch.Keys = append(sch.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: k}})
	}
	for i := 0; i < s.rec; i++ {
		sch.RecordMeasures = append(sch.RecordMeasures, collation.Count{})
	}
	for _, f := range s.fields {
		ms := collation.MeasureSpec{Field: collation.FieldSpec{Pattern: f.name}}
		for _, m := range f.ms {
			ms.Measures = append(ms.Measures, measureOf(m))
		}
		sch.Measures = append(sch.Measures, ms)
	}
	return sch
}

func (s *schema) compile(c *core.Case) collation.Collator {
	sch := s.source()
	coll, err := sch.Compile()
	c.Check(err == nil, "%v: Compile: %v", s, err)
	return coll
}

func (s *schema) store(c *core.Case, slots int) storage.Store {
	coll := s.compile(c)
	return storage.Store{Backend: bufmap.New(slots, coll.Size()), Collator: coll}
}

// measures lists all measures once, as measure(field).
func (s *schema) measures() []string {
	var ms []string
	seen := map[string]bool{}
	add := func(m string) {
		if !seen[m] {
			seen[m] = true
			ms = append(ms, m)
		}
	}
	if s.rec > 0 {
		add("count(*)")
	}
	for _, f := range s.fields {
		for _, m := range f.ms {
			if isUnique(m) {
				m = "uniquecount"
			}
			add(m + "(" + f.name + ")")
		}
	}
	return ms
}

// numeric reports whether the values of the field must be numbers.
func (s *schema) numeric(f string) bool {
	for _, fs := range s.fields {
		if fs.name == f {
			for _, m := range fs.ms {
				if !isUnique(m) {
					return true
				}
			}
		}
	}
	return false
}

// precision is the precision of the unique count of the field, or 0.
func (s *schema) precision(f string) int {
	p := 0
	for _, fs := range s.fields {
		if fs.name == f {
			for _, m := range fs.ms {
				if isUnique(m) {
					p, _ = strconv.Atoi(strings.TrimPrefix(m, "uniquecount:"))
				}
			}
		}
	}
	return p
}

// tuple identifies the instance that o counts in.
func (s *schema) tuple(o obs) (string, bool) {
	var b strings.Builder
	for _, k := range s.keys {
		v, ok := o.get(k)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&b, "%d:%s,", len(v), v)
	}
	return b.String(), true
}

// concat is what the implementation hashes. Two tuples with the same concatenation are
// the subject of a known finding.
func (s *schema) concat(o obs) string {
	var b strings.Builder
	for _, k := range s.keys {
		v, _ := o.get(k)
		b.WriteString(k)
		b.WriteString(v)
	}
	return b.String()
}

// inst is the model of an instance.
type inst struct {
	crit  []kv
	rows  int
	vals  map[string][]float64
	items map[string]map[string]bool
	first map[string]int // number of rows before the first one with the field
}

// model is the specification of a collation.
type model struct {
	s     *schema
	insts map[string]*inst
	order []string
	cats  map[string]string
}

func newModel(s *schema) *model {
	return &model{s: s, insts: map[string]*inst{}, cats: map[string]string{}}
}

// clash reports whether the instance of o cannot be told from another one because of
// the known finding about concatenated keys.
func (m *model) clash(o obs) bool {
	if len(m.s.keys) < 2 {
		return false
	}
	t, ok := m.s.tuple(o)
	if !ok {
		return false
	}
	cat := m.s.concat(o)
	if u, ok := m.cats[cat]; ok {
		return u != t
	}
	m.cats[cat] = t
	return false
}

// numberText reports whether the text of a measured value is a number.
func numberText(v string) (float64, bool) {
	f, err := strconv.ParseFloat(v, 64)
	return f, err == nil
}

// accepts reports whether the collation takes the observation.
func (m *model) accepts(o obs) bool {
	if _, ok := m.s.tuple(o); !ok {
		return true
	}
	for _, p := range o {
		if m.s.numeric(p.f) {
			if _, ok := numberText(p.v); !ok {
				return false
			}
		}
	}
	return true
}

// add applies an acceptable observation.
func (m *model) add(o obs) {
	t, ok := m.s.tuple(o)
	if !ok {
		return
	}
	in := m.insts[t]
	if in == nil {
		in = &inst{vals: map[string][]float64{}, items: map[string]map[string]bool{}, first: map[string]int{}}
		for _, k := range m.s.keys {
			v, _ := o.get(k)
			in.crit = append(in.crit, kv{k, v})
		}
		m.insts[t] = in
		m.order = append(m.order, t)
	}
	for _, p := range o {
		if m.s.numeric(p.f) {
			v, _ := numberText(p.v)
			in.vals[p.f] = append(in.vals[p.f], v)
		}
		if m.s.precision(p.f) > 0 {
			if in.items[p.f] == nil {
				in.items[p.f] = map[string]bool{}
			}
			in.items[p.f][p.v] = true
		}
		if _, ok := in.first[p.f]; !ok {
			in.first[p.f] = in.rows
		}
	}
	in.rows++
}

// split takes measure(field) apart.
func split(mf string) (string, string) {
	i := strings.IndexByte(mf, '(')
	return mf[:i], mf[i+1 : len(mf)-1]
}

// uniqueOf is the unique count of a set of values. That it is right is the subject of
// C07 and that it depends on the set only that of C08.
func uniqueOf(prec int, items map[string]bool) int64 {
	h := hll.New(uint8(prec))
	for it := range items {
		h.Add([]byte(it))
	}
	return h.Count()
}

// verify checks the value reported for measure(field) against the model.
func (in *inst) verify(c *core.Case, s *schema, mf, text, ctx string) {
	m, f := split(mf)
	got, err := strconv.ParseFloat(text, 64)
	c.Check(err == nil, "%s: %s is reported as %q", ctx, mf, text)
	if f == "*" {
		c.Check(m == "count" && got == float64(in.rows), "%s: %s is %s after %d observations", ctx, mf, text, in.rows)
		return
	}
	if m == "uniquecount" {
		want := uniqueOf(s.precision(f), in.items[f])
		c.Check(got == float64(want), "%s: %s is %s, want %d (%d distinct values)", ctx, mf, text, want, len(in.items[f]))
		return
	}
	vals := in.vals[f]
	if len(vals) == 0 {
		switch m {
		case "count", "sum":
			c.Check(got == 0, "%s: %s is %s but no value was received", ctx, mf, text)
		case "max", "min":
			c.Check(got != got, "%s: %s is %s but no value was received", ctx, mf, text)
		}
		return
	}
	st := exact.Of(vals)
	if extreme(vals) && m != "count" && m != "max" && m != "min" {
		return
	}
	switch m {
	case "count":
		c.Check(got == float64(len(vals)), "%s: %s is %s after %d values", ctx, mf, text, len(vals))
	case "sum":
		c.Check(st.SumOK(got), "%s: %s is %s, want %v (%d values)", ctx, mf, text, st.Sum(), len(vals))
	case "mean":
		c.Check(st.MeanOK(got), "%s: %s is %s, want %v (%d values)", ctx, mf, text, st.Mean(), len(vals))
	case "var":
		c.Check(st.VarOK(got), "%s: %s is %s, want %v +- %v (%d values)", ctx, mf, text, st.Var(), st.VarTol(), len(vals))
	case "max":
		c.Check(got == st.Max, "%s: %s is %s, want %v (%d values)", ctx, mf, text, st.Max, len(vals))
	case "min":
		c.Check(got == st.Min, "%s: %s is %s, want %v (%d values)", ctx, mf, text, st.Min, len(vals))
	}
}

// queryText writes a query in the supported form.
func queryText(ms []string, crit []kv) string {
	var b strings.Builder
	b.WriteString("select ")
	b.WriteString(strings.Join(ms, ", "))
	b.WriteString(" where ")
	for i, p := range crit {
		if i > 0 {
			b.WriteString(" and ")
		}
		b.WriteString(p.f + "='" + p.v + "'")
	}
	return b.String()
}

// expectOrder is the order of the lines of a response: grouped by field in the order
// first mentioned, only those that the schema has.
func (s *schema) expectOrder(ms []string) []string {
	have := map[string]bool{}
	for _, m := range s.measures() {
		have[m] = true
	}
	var fields []string
	by := map[string][]string{}
	for _, mf := range ms {
		_, f := split(mf)
		if _, ok := by[f]; !ok {
			fields = append(fields, f)
			by[f] = []string{}
		}
		if have[mf] {
			by[f] = append(by[f], mf)
		}
	}
	var out []string
	for _, f := range fields {
		out = append(out, by[f]...)
	}
	return out
}

// answer is a list of measure(field) and value.
type answer []kv

func (a answer) get(mf string) (string, bool) { return obs(a).get(mf) }

func (a answer) String() string {
	var b strings.Builder
	for _, p := range a {
		fmt.Fprintf(&b, "%s=%s ", p.f, p.v)
	}
	return b.String()
}

// parseBody takes a successful response apart: the criteria and the values.
func parseBody(c *core.Case, body string, crit []kv) answer {
	var want strings.Builder
	for _, p := range crit {
		want.WriteString(p.f + "=" + p.v + "\n")
	}
	c.Check(strings.HasPrefix(body, want.String()), "response %q does not begin with the criteria %q", body, want.String())
	body = body[want.Len():]
	var a answer
	for body != "" {
		i := strings.IndexByte(body, '\n')
		c.Check(i >= 0, "response ends with an incomplete line %q", body)
		l := body[:i]
		body = body[i+1:]
		j := strings.LastIndexByte(l, '=')
		c.Check(j > 0, "response has the line %q", l)
		a = append(a, kv{l[:j], l[j+1:]})
	}
	return a
}

func sameOrder(a answer, want []string) bool {
	if len(a) != len(want) {
		return false
	}
	for i := range a {
		if a[i].f != want[i] {
			return false
		}
	}
	return true
}

// target is a way of using a collation.
type target interface {
	write(c *core.Case, o obs) bool // false if rejected
	read(c *core.Case, name string, ms []string, crit []kv) answer
}

// direct uses a store without a server.
type direct struct{ st storage.Store }

func (d *direct) write(c *core.Case, o obs) bool {
	return d.st.Write(context.Background(), o.row()) == nil
}

func (d *direct) read(c *core.Case, name string, ms []string, crit []kv) answer {
	return readStore(c, d.st, ms, crit)
}

func readStore(c *core.Case, st storage.Store, ms []string, crit []kv) answer {
	q := buildQuery(ms, crit)
	res, err := st.Read(context.Background(), q)
	c.Check(err == nil, "Read %q %q: %v", ms, crit, err)
	var a answer
	for _, v := range res.FieldMeasureValues {
		l := v.String()
		j := strings.LastIndexByte(l, '=')
		c.Check(j > 0, "result %q", l)
		a = append(a, kv{l[:j], l[j+1:]})
	}
	return a
}

func buildQuery(ms []string, crit []kv) collation.Query {
	var q collation.Query
	at := map[string]int{}
	for _, mf := range ms {
		m, f := split(mf)
		i, ok := at[f]
		if !ok {
			i = len(q.FieldMeasures)
			at[f] = i
			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f)})
		}
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(m))
	}
	for _, p := range crit {
		q.Criteria = append(q.Criteria, collation.FV{F: []byte(p.f), V: []byte(p.v)})
	}
	return q
}

// remote is a running server.
type remote struct {
	extra func(http.Header) // adds headers that mean nothing to a request
	style *core.Rand        // if set, chooses among the forms that a request may take
	srv   *server.Server
	sock  string
	c     *http.Client
	tr    *http.Transport
}

type silent struct{}

func (silent) Printf(string, ...interface{}) {}

var servers int64

// serve starts a server. A server cannot be stopped, so it lives as long as the process.
func serve(c *core.Case, stores ...storage.Store) *remote {
	n := atomic.AddInt64(&servers, 1)
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	sock := filepath.Join(dir, fmt.Sprintf("s%d", n))
	if len(sock) > 100 {
		sock = fmt.Sprintf("@verif-%d-%d", os.Getpid(), n)
	}
	if sock[0] != '@' {
		os.Remove(sock) // an earlier process may have left it
	}
	s := &server.Server{Net: "unix", Addr: sock, Logger: silent{}, Stores: stores}
	errc := make(chan error, 1)
	go func() { errc <- s.Serve() }()
	r := &remote{sock: sock, srv: s}
	r.tr = &http.Transport{
		DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "unix", sock)
		},
		MaxIdleConnsPerHost: 64,
		DisableCompression:  true,
	}
	r.c = &http.Client{Transport: r.tr}
	for i := 0; ; i++ {
		conn, err := net.Dial("unix", sock)
		if err == nil {
			conn.Close()
			break
		}
		select {
		case err := <-errc:
			c.Failf("the server does not start: %v", err)
		case <-time.After(time.Duration(100+100*i) * time.Microsecond):
		}
		c.Check(i < 400, "the server does not listen: %v", err)
	}
	c.Run.Count("servers started", 1)
	return r
}

// close ends the server, which offers no way to do so: its stores are taken away and,
// some time later, its listening socket is found among those of this process and closed,
// so that many servers can be run in one process. No request may be under way.
func (r *remote) close() {
	r.tr.CloseIdleConnections()
	os.Remove(r.sock)
	r.srv.Stores = nil
	retired.Lock()
	defer retired.Unlock()
	retired.socks = append(retired.socks, sockTime{r.sock, time.Now()})
	if len(retired.socks) < 3000 || time.Since(retired.socks[1000].t) < 2*time.Second {
		return
	}
	// Nobody can connect to these any more, so nothing happens in their accept loops.
	old := map[string]bool{}
	for _, s := range retired.socks[:1000] {
		old[s.sock] = true
	}
	retired.socks = append([]sockTime(nil), retired.socks[1000:]...)
	dir, err := os.Open("/proc/self/fd")
	if err != nil {
		return
	}
	names, _ := dir.Readdirnames(-1)
	dir.Close()
	for _, name := range names {
		fd, err := strconv.Atoi(name)
		if err != nil {
			continue
		}
		if on, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_ACCEPTCONN); err != nil || on == 0 {
			continue
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		if u, ok := sa.(*syscall.SockaddrUnix); ok && old[u.Name] {
			syscall.Close(fd)
		}
	}
}

type sockTime struct {
	sock string
	t    time.Time
}

var retired struct {
	sync.Mutex
	socks []sockTime
}

func (r *remote) dial(c *core.Case) net.Conn {
	conn, err := net.Dial("unix", r.sock)
	c.Check(err == nil, "the server does not accept connections any more: %v", err)
	return conn
}

type reply struct {
	code int
	body string
	hdr  http.Header
}

func (r *remote) do(c *core.Case, method, target, ct, body string, chunked bool) reply {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
		if chunked {
			rd = io.MultiReader(rd)
		}
	}
	req, err := http.NewRequest(method, "http://starbow"+target, rd)
	if err != nil {
		panic(err)
	}
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	if r.extra != nil {
		r.extra(req.Header)
	}
	if r.style != nil && r.style.P(0.25) {
		rp, err := r.raw(c, r.style, req, body, chunked)
		c.Check(err == nil, "%s %s gets no response: %v", method, target, err)
		c.Run.Tick()
		return rp
	}
	res, err := r.c.Do(req)
	c.Check(err == nil, "%s %s gets no response: %v", method, target, err)
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	c.Check(err == nil, "%s %s: response is broken off: %v", method, target, err)
	c.Run.Tick()
	return reply{res.StatusCode, string(b), res.Header}
}

func ok2xx(code int) bool { return code >= 200 && code < 300 }

// post sends lines as text.
func (r *remote) post(c *core.Case, body string) reply {
	return r.do(c, "POST", "/obs", "text/plain", body, false)
}

func (r *remote) query(c *core.Case, name, q string, usePost bool) reply {
	if usePost {
		return r.do(c, "POST", "/collation/"+name, "application/x-www-form-urlencoded", "q="+url.QueryEscape(q), false)
	}
	return r.do(c, "GET", "/collation/"+name+"?q="+url.QueryEscape(q), "", "", false)
}

func (r *remote) write(c *core.Case, o obs) bool {
	return ok2xx(r.post(c, o.line("1480000000000000", '\t')).code)
}

func (r *remote) read(c *core.Case, name string, ms []string, crit []kv) answer {
	rp := r.query(c, name, queryText(ms, crit), len(crit)%2 == 1)
	c.Check(rp.code == 200, "query %q of %s gets status %d: %s", queryText(ms, crit), name, rp.code, rp.body)
	return parseBody(c, rp.body, crit)
}

// verifyAll reads all measures of all instances and compares them with the model.
func (m *model) verifyAll(c *core.Case, t target, ctx string) int {
	n := 0
	ms := m.s.measures()
	if len(ms) == 0 {
		return 0
	}
	for _, key := range m.order {
		n += m.verifyOne(c, t, key, ms, ctx)
	}
	return n
}

func (m *model) verifyOne(c *core.Case, t target, key string, ms []string, ctx string) int {
	in := m.insts[key]
	crit := in.crit
	if len(crit) == 0 {
		crit = []kv{{"nokey", "x"}}
	}
	a := t.read(c, m.s.name, ms, crit)
	want := m.s.expectOrder(ms)
	c.Check(sameOrder(a, want), "%s: %s %q: query for %q answers %v", ctx, m.s.name, in.crit, ms, a)
	for _, p := range a {
		in.verify(c, m.s, p.f, p.v, fmt.Sprintf("%s: %v instance %q", ctx, m.s, in.crit))
	}
	c.Run.Tick()
	return len(a)
}

// digest identifies the state of the model.
func (m *model) digest() uint64 {
	h := core.HashBytes([]byte(fmt.Sprint(m.s)))
	for _, k := range m.order {
		in := m.insts[k]
		h = core.Mix(h, core.HashBytes([]byte(k)), uint64(in.rows))
		var fs []string
		for f := range in.vals {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			h = core.Mix(h, core.HashBytes([]byte(fmt.Sprint(in.vals[f]))))
		}
	}
	return h
}

// extreme reports whether a value is so large that its square overflows.
func extreme(vals []float64) bool {
	for _, v := range vals {
		if v > 1e150 || v < -1e150 {
			return true
		}
	}
	return false
}
