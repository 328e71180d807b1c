package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
)

// readStatus reads a response and returns its status.
func readStatus(conn net.Conn) (int, error) {
	res, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return 0, err
	}
	io.Copy(io.Discard, res.Body)
	res.Body.Close()
	return res.StatusCode, nil
}

// prompt is the time in which anything must be answered. Everything asked for here takes well
// below a second.
const prompt = 20 * time.Second

func checkTime(r *core.Run) {
	r.Rule = "busy/*: while writers never stop writing to an instance of a store (or readers never stop reading), each of many queries and observations of that instance and of others, also new ones and ones that are refused, completes. big/*: requests of up to several megabytes with as many of something as fit (criteria, measures, fields, separators, digits, brackets, lines) are answered while small requests beside them are, too, half of the time with clients stalled at every point of a request. " +
		"full/*: the same with stores filled to the last slot. Everything must be done in 20 s, of which it takes a small fraction. Non-trivial if the operation was done beside others. Digest: kind and sizes."
	r.Assum = []string{"20 s is bounded: the slowest operation takes well below 1 s on an idle machine"}
	r.Seq(r.N(30, 300), "busy", timeBusy)
	r.Seq(r.N(20, 200), "full", timeFull)
	r.Each(r.N(2*len(bigs), 10*len(bigs)), "big", timeBig)
}

// timed runs fn and fails if it takes too long.
func timed(c *core.Case, what string, fn func()) {
	done := make(chan struct{})
	t := time.Now()
	go func() {
		defer close(done)
		fn()
	}()
	select {
	case <-done:
	case <-time.After(prompt):
		c.Failf("%s is not done in %v", what, prompt)
	}
	c.Max("longest operation beside others, seconds", time.Since(t).Seconds())
	c.Tick()
}

func busyStore(c *core.Case, p, slots int) storage.Store {
	sch := collation.Schema{Name: "c", RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}}
	sch.Measures = []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "x"}, Measures: []collation.Measure{collation.Sum{}, collation.Max{}}}}
	if p > 0 {
		sch.Measures = append(sch.Measures, collation.MeasureSpec{Field: collation.FieldSpec{Pattern: "u"}, Measures: []collation.Measure{collation.Cardinality{Precision: p}}})
	}
	coll, err := sch.Compile()
	c.Check(err == nil, "Compile: %v", err)
	return storage.Store{Backend: bufmap.New(slots, coll.Size()), Collator: coll}
}

func bobs(key string, n int) collation.Row {
	return collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte(key)}, {F: []byte("x"), V: []byte(fmt.Sprint(n % 100))}, {F: []byte("u"), V: []byte(fmt.Sprint("u", n))}}}
}

func bquery(key string) collation.Query {
	return collation.Query{FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}, {F: []byte("x"), M: [][]byte{[]byte("max")}}, {F: []byte("u"), M: [][]byte{[]byte("uniquecount")}}},
		Criteria: collation.FVList{{F: []byte("k"), V: []byte(key)}}}
}

// beside runs fn in some goroutines until the function returned is called.
func beside(n int, fn func(g, i int)) func() int {
	var stop int32
	var total int64
	done := make(chan struct{}, n)
	for g := 0; g < n; g++ {
		g := g
		go func() {
			for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
				fn(g, i)
				atomic.AddInt64(&total, 1)
			}
			done <- struct{}{}
		}()
	}
	return func() int {
		atomic.StoreInt32(&stop, 1)
		end := time.After(prompt)
		for g := 0; g < n; g++ {
			select {
			case <-done:
			case <-end: // reported by the operations already, or they hang after all
				return -1
			}
		}
		return int(atomic.LoadInt64(&total))
	}
}

// lingering is a backend whose updates take some time to decide what to write.
type lingering struct {
	storage.Backend
	d time.Duration
}

func (l lingering) Update(k uint64, fn func([]byte, bool) error) error {
	return l.Backend.Update(k, func(data []byte, init bool) error {
		err := fn(data, init)
		time.Sleep(l.d)
		return err
	})
}

func timeBusy(c *core.Case, i int) {
	rng := c.Rng
	p := []int{0, 4, 8, 12, 14, 16, 18, 18}[i%8]
	st := busyStore(c, p, rng.PickInt(7, 50, 200))
	linger := rng.PickInt(0, 0, 0, 50, 500, 2000)
	if i%8 == 6 {
		linger = rng.PickInt(5000, 10000, 20000)
	}
	if linger > 0 {
		st.Backend = lingering{st.Backend, time.Duration(linger) * time.Microsecond}
		c.Count("stores with updates that take long", 1)
	}
	bg := context.Background()
	writers, readers := rng.PickInt(1, 2, 3, 5, 12), rng.PickInt(0, 0, 1, 3)
	if rng.P(0.15) {
		writers, readers = 0, 6
	}
	if rng.P(0.1) {
		writers, readers = 1, 0
	}
	if i%8 == 6 {
		writers = rng.Range(2, 4)
	}
	// rejected observations, too
	bad := rng.P(0.3)
	c.Check(st.Write(bg, bobs("a", 0)) == nil, "an observation is rejected")
	stopW := beside(writers, func(g, n int) {
		row := bobs("a", n*31+g)
		if bad && n%2 == 0 {
			row.Data[1].V = []byte("bad")
		}
		st.Write(bg, row)
	})
	stopR := beside(readers, func(g, n int) { st.Read(bg, bquery("a")) })
	time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
	what := fmt.Sprintf("beside %d writers and %d readers of the same instance (precision %d)", writers, readers, p)
	n := 0
	for ; n < 25; n++ {
		ok := true
		switch n % 5 {
		case 0, 1:
			timed(c, "a query "+what, func() {
				res, err := st.Read(bg, bquery("a"))
				ok = err == nil && len(res.FieldMeasureValues) > 0
			})
		case 2:
			timed(c, "an observation "+what, func() { ok = st.Write(bg, bobs("a", n)) == nil })
		case 3:
			timed(c, "an observation of another instance "+what, func() { ok = st.Write(bg, bobs(fmt.Sprint("b", n%3), n)) == nil })
		case 4:
			timed(c, "a query of another instance "+what, func() {
				_, err := st.Read(bg, bquery(fmt.Sprint("b", n%4)))
				ok = err == nil
			})
		}
		c.Check(ok, "operation %d %s is refused", n, what)
	}
	w, r := stopW(), stopR()
	c.Check(w >= 0 && r >= 0, "%s: they are not done in %v", what, prompt)
	c.Count("operations beside others", n)
	c.Count("writes beside them", w)
	c.Count("reads beside them", r)
	c.Eval(core.Mix(uint64(i), uint64(writers), uint64(readers)))
	if i < 3 {
		c.Sample("busy", fmt.Sprintf("%d operations %s, meanwhile %d writes and %d reads", n, what, w, r))
	}
}

func timeFull(c *core.Case, i int) {
	rng := c.Rng
	slots := rng.PickInt(1, 2, 3, 5, 10, 11, 12, 40, 2000)
	st := busyStore(c, rng.PickInt(0, 4, 10), slots)
	bg := context.Background()
	for n := 0; n < 4*slots+50; n++ {
		st.Write(bg, bobs(fmt.Sprint("k", n), n))
	}
	stop := beside(rng.Range(2, 8), func(g, n int) {
		if n%3 == 0 {
			st.Read(bg, bquery(fmt.Sprint("z", n)))
		} else {
			st.Write(bg, bobs(fmt.Sprint("k", (n*7+g)%(8*slots)), n))
		}
	})
	n := 0
	for ; n < 300; n++ {
		k := fmt.Sprint("k", rng.Intn(8*slots))
		if n%2 == 0 {
			timed(c, fmt.Sprintf("a query in a store of %d slots, all taken,", slots), func() { st.Read(bg, bquery(k)) })
		} else {
			timed(c, fmt.Sprintf("an observation in a store of %d slots, all taken,", slots), func() { st.Write(bg, bobs(k, n)) })
		}
	}
	t := stop()
	c.Check(t >= 0, "operations in a full store of %d slots are not done in %v", slots, prompt)
	c.Count("operations in full stores", n+t)
	c.Eval(core.Mix(uint64(i), uint64(slots)))
}

// rep repeats s up to n bytes.
func rep(s string, n int) string { return strings.Repeat(s, n/len(s)) }

// bigs are large requests.
var bigs = []struct {
	name string
	max  int // bytes
	make func(n int) (ct, path, body string)
}{
	{"criteria", 3 << 19, func(n int) (string, string, string) {
		return q("select count(*) where " + rep("a='b' and ", n) + "k='a'")
	}},
	{"different criteria", 3 << 19, func(n int) (string, string, string) {
		return q("select count(*) where " + numbered("a%d='b' and ", n) + "k='a'")
	}},
	{"measures", 3 << 19, func(n int) (string, string, string) {
		return q("select " + rep("count(*), ", n) + "sum(x) where k='a'")
	}},
	{"different measures", 3 << 19, func(n int) (string, string, string) {
		return q("select " + numbered("m%d(x), ", n) + "sum(x) where k='a'")
	}},
	{"different fields", 3 << 19, func(n int) (string, string, string) {
		return q("select " + numbered("sum(x%d), ", n) + "sum(x) where k='a'")
	}},
	{"blanks", 3 << 19, func(n int) (string, string, string) {
		return q("select" + rep(" ", n) + "count(*)" + rep(" ", n/4) + "where k='a'" + rep(" ", n/4))
	}},
	{"opening brackets", 3 << 19, func(n int) (string, string, string) { return q("select " + rep("(", n) + " where k='a'") }},
	{"names and brackets", 3 << 19, func(n int) (string, string, string) { return q("select " + rep("a(", n) + " where k='a'") }},
	{"brackets", 3 << 19, func(n int) (string, string, string) {
		return q("select " + rep("(", n/2) + rep(")", n/2) + " where k='a'")
	}},
	{"quotes", 3 << 19, func(n int) (string, string, string) { return q("select count(*) where k='" + rep("''", n)) }},
	{"equals signs", 3 << 19, func(n int) (string, string, string) { return q("select count(*) where " + rep("=", n) + " k='a'") }},
	{"openings", 3 << 19, func(n int) (string, string, string) { return q("select count(*) where " + rep("k='", n)) }},
	{"a long value", 3 << 19, func(n int) (string, string, string) { return q("select count(*) where k='" + rep("a", n) + "'") }},
	{"a long name", 3 << 19, func(n int) (string, string, string) { return q("select count(*) where " + rep("a", n) + "='a'") }},
	{"selects", 3 << 19, func(n int) (string, string, string) { return q(rep("select ", n) + "count(*) where k='a'") }},
	{"wheres", 3 << 19, func(n int) (string, string, string) { return q("select count(*) " + rep("where ", n) + "k='a'") }},
	{"select where", 3 << 19, func(n int) (string, string, string) { return q(rep("select count(*) where k='a' ", n)) }},
	{"no query", 3 << 19, func(n int) (string, string, string) { return q(rep("a ", n)) }},
	{"bytes", 3 << 19, func(n int) (string, string, string) { return q(rep("\xff", n)) }},
	{"parameters", 4 << 20, func(n int) (string, string, string) {
		return "application/x-www-form-urlencoded", "/collation/c", rep("a=b&", n) + "q=select+count(*)+where+k%3d'a'"
	}},
	{"lines", 4 << 20, func(n int) (string, string, string) { return "text/plain", "/obs", rep("1\tk=a\tx=1\n", n) }},
	{"lines of timestamps", 2 << 20, func(n int) (string, string, string) { return "text/plain", "/obs", rep("1\n", n) }},
	{"delimiters", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1"+rep("\t", n)+"\tk=a\tx=1\n", 20*n)
	}},
	{"fields", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1"+numbered("\tf%d=1", n)+"\tk=a\tx=1\n", 20*n)
	}},
	{"measured fields", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk=a"+rep("\tu=1", n)+"\n", 10*n)
	}},
	{"field signs", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk=a\tf"+rep("=", n)+"\tx=1\n", 20*n)
	}},
	{"digits", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk=a\tx=0."+rep("0123456789", n)+"\n", 20*n)
	}},
	{"zeros", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk=a\tx=1"+rep("0", n)+"e-"+fmt.Sprint(n)+"\n", 20*n)
	}},
	{"a long item", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk=a\tu="+rep("u", n)+"\n", 20*n)
	}},
	{"a long key", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk="+rep("k", n)+"\tx=1\n", 20*n)
	}},
	{"a line that is too long", 4 << 20, func(n int) (string, string, string) { return "text/plain", "/obs", "1\tk=a\tx=" + rep("1", n) }},
	{"a form", 4 << 20, func(n int) (string, string, string) {
		return "application/x-www-form-urlencoded", "/obs", "data=" + rep("1%09k=a%09x=1%0a", n)
	}},
	{"carriage returns", 60000, func(n int) (string, string, string) {
		return "text/plain", "/obs", rep("1\tk=a"+rep("\r", n)+"\n", 20*n)
	}},
}

func q(s string) (string, string, string) {
	return "application/x-www-form-urlencoded", "/collation/c", "q=" + url.QueryEscape(s)
}

func numbered(format string, n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, format, i)
	}
	return b.String()
}

func timeBig(c *core.Case, i int) {
	rng := c.Rng
	kind := bigs[i%len(bigs)]
	network, addr := place(c, rng.Intn(2))
	p := launch(c, network, addr, 0, rng.Bool())
	defer p.kill()
	p.up()
	p.canary(1, "at the start")
	// some clients have stalled; they keep nobody waiting
	stalled := ""
	if i%2 == 1 {
		many := rng.PickInt(2, 20, 40) * len(stalls)
		for k := 0; k < many; k++ {
			conn, err := p.dial()
			c.Check(err == nil, "a connection gets %v (%s)", err, p.output())
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(time.Second))
			io.WriteString(conn, stalls[k%len(stalls)].sent) // not all of it may be taken
		}
		stalled = fmt.Sprintf(" and %d stalled clients", many)
		time.Sleep(5 * time.Millisecond)
		c.Count("stalled clients", many)
		p.canary(1, "beside"+stalled[4:])
	}
	n := kind.max
	if i >= len(bigs) {
		n = rng.Range(n/10, n)
	}
	ct, path, body := kind.make(n)
	what := fmt.Sprintf("a request of %d bytes with %s", len(body), kind.name)
	t := time.Now()
	done := make(chan struct{})
	var code int
	var err error
	go func() {
		defer close(done)
		code, _, err = p.request("POST", path, ct, body)
	}()
	for k := 0; ; k++ {
		p.canary(1, "beside "+what+stalled)
		c.Count("small requests beside large ones", 2)
		select {
		case <-done:
		case <-time.After(time.Millisecond):
			continue
		}
		break
	}
	c.Check(err == nil && code > 0, "%s is not answered in %v: %v", what, time.Since(t), err)
	c.Max("longest answer to a large request with "+kind.name+", seconds", time.Since(t).Seconds())
	c.Count("bytes in large requests", len(body))
	p.canary(1, "after "+what)
	c.Eval(core.Mix(uint64(i), uint64(len(body)), uint64(code)))
	if i < len(bigs) {
		c.Sample("big", fmt.Sprintf("%s: status %d", what, code))
	}
}
