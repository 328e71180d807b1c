// Command querymon monitors the query parser.
package main

import (
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/verifmon/core"
)

func main() {
	core.Main(map[string]func(r *core.Run){"C13": checkQueries})
}

type sel struct{ m, f string }
type crit struct{ f, v string }

// ast is a query. It is the only thing that the oracle knows about a text.
type ast struct {
	sels  []sel
	crits []crit
}

func checkQueries(r *core.Run) {
	r.Rule = "a random query (measures of repeated and distinct fields, criteria with hostile values) is written with random keyword case and white space, parsed, and the result compared with the query it was written from; non-trivial if it has at least two selections or criteria; texts that lack the form by an independent recogniser must be rejected; arbitrary and mutated texts must not crash"
	r.Assum = []string{"names have no white space, commas, quotes, parentheses or = signs; lists have only blanks and tabs between items; values have no quotes and line breaks"}
	r.Each(r.N(600, 20000), "written", func(c *core.Case, _ int) {
		for i := 0; i < 50; i++ {
			a := randomAST(c.Rng)
			text := a.write(c.Rng)
			q, err := query.RoughParse(text)
			c.Check(err == nil, "%q is rejected: %v", text, err)
			a.compare(c, text, q)
			if len(a.sels)+len(a.crits) > 2 {
				c.Eval(core.HashBytes([]byte(text)))
			} else {
				c.Eval(0)
			}
			if i == 0 {
				c.Sample("written", text)
			}
		}
		c.Count("queries written and parsed", 50)
	})
	r.Each(r.N(60, 1000), "long", func(c *core.Case, _ int) {
		var a ast
		ns, nc := c.Rng.Range(1, 400), c.Rng.Range(1, 200)
		switch c.Rng.Intn(6) {
		case 0:
			ns = c.Rng.Range(400, 6000)
		case 1:
			nc = c.Rng.Range(200, 6000)
		}
		for i := 0; i < ns; i++ {
			a.sels = append(a.sels, sel{name(c.Rng, measureNames), fmt.Sprint("f", c.Rng.Intn(60+ns/2))})
		}
		for i := 0; i < nc; i++ {
			v := value(c.Rng)
			if nc > 200 && len(v) > 40 {
				v = v[:c.Rng.Intn(40)]
			}
			a.crits = append(a.crits, crit{fmt.Sprint("k", i), v})
		}
		text := a.write(c.Rng)
		q, err := query.RoughParse(text)
		c.Check(err == nil, "query of %d bytes is rejected: %v", len(text), err)
		a.compare(c, text, q)
		c.Eval(core.HashBytes([]byte(text)))
		c.Count("long queries parsed", 1)
	})
	r.Each(r.N(300, 10000), "malformed", func(c *core.Case, _ int) {
		for i := 0; i < 50; i++ {
			text := malformed(c.Rng)
			if hasForm(text) {
				query.RoughParse(text) // must not crash
				c.Count("texts with the form by chance", 1)
				continue
			}
			q, err := query.RoughParse(text)
			c.Check(err != nil, "%q is not a query but parses to %v", text, q)
			c.Eval(core.HashBytes([]byte(text)))
			c.Count("malformed texts rejected", 1)
			if i == 0 {
				c.Sample("malformed", text)
			}
		}
	})
	r.Each(r.N(400, 20000), "garbage", func(c *core.Case, _ int) {
		for i := 0; i < 50; i++ {
			text := garbage(c.Rng)
			_, err := query.RoughParse(text)
			c.Check(err != nil || hasForm(text), "%q is not a query but is accepted", text)
		}
		c.Count("arbitrary texts survived", 50)
		c.Eval(0)
	})
}

var measureNames = []string{"count", "sum", "mean", "var", "max", "min", "uniquecount", "COUNT", "Select", "where", "and", "p99.9", "é", "x"}
var fieldNames = []string{"*", "a", "A", "b", "ab", "a.b", "a-b", "a_b", "é", "where", "select", "and", "count", "height", "iata", "a:b", "a/b", "x?", "[0]", "1", "$", "^", "\\"}

func name(rng *core.Rand, from []string) string {
	if rng.P(0.8) {
		return from[rng.Intn(len(from))]
	}
	return rng.Text(rng.Range(1, 12), "abcdefgXYZ0189_.-:/$#@!~|;<>?&%^+*{}[]\"`\\")
}

func value(rng *core.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return rng.Pick(" where ", "x where y", "a WHERE b", "select x(y) where z", " ", "  ", "\t", "=", "a=b", "a=", "=a", "==", "and", " and ", "b) and c=", "(", ")", "count(a)", ",", ", sum(b)", "\"", "\\", "\\n", "%27", "`", "*", ".*", "$1", "é", "ﬀ", "\u00a0", "\u2028", "\u0085", "where", "k where j=")
	case 2:
		b := rng.Bytes(rng.Range(1, 30))
		for i := range b {
			if b[i] == '\'' || b[i] == '\n' || b[i] == '\r' {
				b[i] = 0xff
			}
		}
		return string(b)
	case 3:
		return rng.Text(rng.Range(1, 3000), "abc =,()where")
	case 4:
		return strings.Repeat(rng.Pick(" where ", "=", " and ", "x='"[:2], "select "), rng.Range(1, 6))
	}
	return rng.Text(rng.Range(1, 12), "abcdefghijklmnopqrstuvwxyzABCDEF0123456789 /-_.")
}

func randomAST(rng *core.Rand) ast {
	var a ast
	ns := rng.Range(1, 5)
	if rng.P(0.2) {
		ns = rng.Range(5, 20)
	}
	for i := 0; i < ns; i++ {
		s := sel{name(rng, measureNames), name(rng, fieldNames)}
		if i > 0 && rng.P(0.4) { // the same field again, perhaps the same measure
			s.f = a.sels[rng.Intn(i)].f
			if rng.P(0.3) {
				s.m = a.sels[rng.Intn(i)].m
			}
		}
		a.sels = append(a.sels, s)
	}
	for i, n := 0, rng.Range(1, 4); i < n; i++ {
		cr := crit{name(rng, fieldNames), value(rng)}
		if cr.f == "*" {
			cr.f = "k"
		}
		a.crits = append(a.crits, cr)
	}
	return a
}

func blanks(rng *core.Rand, min int) string {
	if rng.P(0.6) {
		return strings.Repeat(" ", min)
	}
	return rng.Text(rng.Range(min, 5), "  \t")
}

func breaks(rng *core.Rand, min int) string {
	if rng.P(0.9) {
		return blanks(rng, min)
	}
	return rng.Text(rng.Range(1, 4), " \t\n\r")
}

func keyword(rng *core.Rand, k string) string {
	switch rng.Intn(4) {
	case 0:
		return strings.ToUpper(k)
	case 1:
		b := []byte(k)
		for i := range b {
			if rng.Bool() {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return k
}

func (a ast) write(rng *core.Rand) string {
	var b strings.Builder
	b.WriteString(breaks(rng, 0) + keyword(rng, "select") + breaks(rng, 1))
	for i, s := range a.sels {
		if i > 0 {
			b.WriteString(blanks(rng, 0) + "," + blanks(rng, 0))
		}
		b.WriteString(s.m + "(" + s.f + ")")
	}
	b.WriteString(breaks(rng, 1) + keyword(rng, "where") + breaks(rng, 1))
	for i, cr := range a.crits {
		if i > 0 {
			b.WriteString(blanks(rng, 1) + keyword(rng, "and") + blanks(rng, 1))
		}
		b.WriteString(cr.f + "='" + cr.v + "'")
	}
	b.WriteString(breaks(rng, 0))
	return b.String()
}

// show writes a parsed query in one way.
func show(q collation.Query) string {
	var b strings.Builder
	for _, fm := range q.FieldMeasures {
		fmt.Fprintf(&b, "%q:", fm.F)
		for _, m := range fm.M {
			fmt.Fprintf(&b, "%q ", m)
		}
		b.WriteString("; ")
	}
	b.WriteString("where ")
	for _, cr := range q.Criteria {
		fmt.Fprintf(&b, "%q=%q ", cr.F, cr.V)
	}
	return b.String()
}

// expect groups the measures by field in the order first mentioned.
func (a ast) expect() collation.Query {
	var q collation.Query
	for i, s := range a.sels {
		seen := false
		for _, p := range a.sels[:i] {
			seen = seen || p.f == s.f
		}
		if seen {
			continue
		}
		fm := collation.FM{F: []byte(s.f)}
		for _, p := range a.sels[i:] {
			if p.f == s.f {
				fm.M = append(fm.M, []byte(p.m))
			}
		}
		q.FieldMeasures = append(q.FieldMeasures, fm)
	}
	for _, cr := range a.crits {
		q.Criteria = append(q.Criteria, collation.FV{F: []byte(cr.f), V: []byte(cr.v)})
	}
	return q
}

func (a ast) compare(c *core.Case, text string, q collation.Query) {
	got, want := show(q), show(a.expect())
	c.Check(got == want, "%q parses to %s, want %s", text, got, want)
	// the results must not share memory in a way that lets one spoil another
	for i := range q.FieldMeasures {
		q.FieldMeasures[i].F = append(q.FieldMeasures[i].F, "zz"...)
		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte("zz"))
	}
	for i := range q.Criteria {
		q.Criteria[i].V = append(q.Criteria[i].V, "zz"...)
	}
	q2, err := query.RoughParse(text)
	c.Check(err == nil && show(q2) == want, "%q parses differently the second time: %s, %v", text, show(q2), err)
}

// hasForm recognises select ... where ... more liberally than the parser.
func hasForm(s string) bool {
	s = strings.ToLower(strings.Replace(s, "\u017f", "s", -1))
	isWS := func(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\f' || b == '\v' }
	for s != "" && isWS(s[0]) {
		s = s[1:]
	}
	if !strings.HasPrefix(s, "select") || len(s) < 7 || !isWS(s[6]) {
		return false
	}
	s = s[7:]
	for i := 1; i+6 < len(s); i++ {
		if isWS(s[i]) && s[i+1:i+6] == "where" && isWS(s[i+6]) {
			return true // blanks before and after it are left open
		}
	}
	return false
}

func malformed(rng *core.Rand) string {
	a := randomAST(rng)
	if rng.P(0.5) { // values that do not bring the form back
		for i := range a.crits {
			a.crits[i].v = rng.Text(rng.Intn(8), "abc")
		}
	}
	var ss, ws []string
	for _, s := range a.sels {
		ss = append(ss, s.m+"("+s.f+")")
	}
	for _, cr := range a.crits {
		ws = append(ws, cr.f+"='"+cr.v+"'")
	}
	s, w := strings.Join(ss, ", "), strings.Join(ws, " and ")
	switch rng.Intn(12) {
	case 0:
		return "select " + s
	case 1:
		return "where " + w
	case 2:
		return "select " + s + " where"
	case 3:
		return "select" + s + " where " + w
	case 4:
		return "select " + s + "where " + w
	case 5:
		return "where " + w + " select " + s
	case 6:
		return s + " where " + w
	case 7:
		return "selec " + s + " where " + w
	case 8:
		return "select " + s + " were " + w
	case 9:
		return "x select " + s + " where " + w
	case 10:
		return rng.Pick("", " ", "select", "where", "select where", "select  where ", "\n", "select * from t", "selectwhere", "select a(b) where ", "select\twhere\t")
	}
	return "select " + s + " where" + w
}

func garbage(rng *core.Rand) string {
	switch rng.Intn(3) {
	case 0:
		return string(rng.Bytes(rng.Intn(60)))
	case 1:
		var b strings.Builder
		for i, n := 0, rng.Intn(20); i < n; i++ {
			b.WriteString(rng.Pick("select", "where", "and", " ", " ", "\t", "\n", "(", ")", ",", "'", "=", "a", "count(a)", "k='v'", "''", "=''", "\xff", "*", "()", "(,)"))
		}
		return b.String()
	}
	// mutated query
	b := []byte(randomAST(rng).write(rng))
	for i, n := 0, rng.Range(1, 4); i < n && len(b) > 0; i++ {
		p := rng.Intn(len(b))
		switch rng.Intn(4) {
		case 0:
			b[p] = byte(rng.Uint64())
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b = b[:p]
		case 3:
			b = append(b[:p:p], append([]byte{"' ,()=\n"[rng.Intn(7)]}, b[p:]...)...)
		}
	}
	return string(b)
}
