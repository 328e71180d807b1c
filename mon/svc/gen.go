package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/exact"
)

var fieldNames = []string{"a", "b", "ab", "A", "x", "height", "iata", "tz", "country", "é", "sum", "count", "k1", "k2", "f.g", "f-g", "_", "x2", "2x", "very_long_field_name_with_many_letters"}

// pickNames returns n distinct field names.
func pickNames(rng *core.Rand, n int) []string {
	p := rng.Perm(len(fieldNames))
	var out []string
	for _, i := range p[:n] {
		out = append(out, fieldNames[i])
	}
	return out
}

// randomMeasures is a random list of distinct numeric measures.
func randomMeasures(rng *core.Rand) []string {
	p := rng.Perm(len(contMeasures))
	n := rng.Range(1, len(contMeasures))
	var ms []string
	for _, i := range p[:n] {
		ms = append(ms, contMeasures[i])
	}
	return ms
}

// randomSchema has up to maxKeys keys and one to four measured fields, which may be keys.
func randomSchema(rng *core.Rand, name string, maxKeys int) *schema {
	s := &schema{name: name}
	names := pickNames(rng, 8)
	nk := rng.Range(0, maxKeys)
	s.keys = append(s.keys, names[:nk]...)
	s.rec = rng.PickInt(0, 1, 1, 1)
	nf := rng.Range(1, 4)
	for i := 0; i < nf; i++ {
		f := fieldSpec{name: names[nk+i]}
		switch rng.Intn(5) {
		case 0:
			f.ms = []string{unique(rng)}
			if nk > 0 && rng.P(0.3) {
				f.name = s.keys[rng.Intn(nk)]
			}
		case 1:
			f.ms = randomMeasures(rng)
			at := rng.Range(0, len(f.ms))
			f.ms = append(f.ms[:at:at], append([]string{unique(rng)}, f.ms[at:]...)...)
		default:
			f.ms = randomMeasures(rng)
		}
		dup := false
		for _, g := range s.fields {
			dup = dup || g.name == f.name
		}
		if !dup {
			s.fields = append(s.fields, f)
		}
	}
	if rng.P(0.1) {
		s.fields = nil
		s.rec = 1
	}
	return s
}

// largeSchema has large records: of unique counts of high precision with other measures
// between them, or of many fields.
func largeSchema(rng *core.Rand, name string, maxKeys int) *schema {
	s := &schema{name: name, keys: pickNames(rng, rng.Range(0, maxKeys)), rec: rng.PickInt(0, 1, 1)}
	if rng.P(0.3) {
		n := rng.PickInt(33, 40, 65, 70, 130, 257, 300)
		for i := 0; i < n; i++ {
			f := fieldSpec{fmt.Sprint("f", i), randomMeasures(rng)}
			if rng.P(0.1) {
				f.ms = append(f.ms, unique(rng))
			}
			s.fields = append(s.fields, f)
		}
		return s
	}
	for i := 0; i < rng.Range(2, 6); i++ {
		f := fieldSpec{fmt.Sprint("f", i), randomMeasures(rng)}
		if i == 0 || rng.P(0.4) {
			at := rng.Range(0, len(f.ms))
			f.ms = append(f.ms[:at:at], append([]string{fmt.Sprint("uniquecount:", rng.PickInt(8, 13, 14, 15, 16, 16, 16, 17, 18))}, f.ms[at:]...)...)
		}
		s.fields = append(s.fields, f)
	}
	return s
}

func unique(rng *core.Rand) string {
	return fmt.Sprintf("uniquecount:%d", rng.PickInt(4, 4, 5, 6, 7, 8, 9, 10, 11, 12))
}

// longValue is a value that makes a line long, but no longer than is accepted.
func longValue(rng *core.Rand) string {
	n := rng.Range(1000, 60000)
	if rng.P(0.5) {
		n = rng.PickInt(1023, 4000, 4095, 4096, 4097, 8192, 16384, 32768, 50000, 60000) + rng.Range(-40, 40)
	}
	if rng.Bool() {
		return strings.Repeat(rng.Pick("a", "=", "xy", "0"), n)[:n]
	}
	return rng.Text(n, "abcdef 0123456789-_/=.")
}

// textLong is a long value of which several fit in a line and in the address of a query.
func textLong(rng *core.Rand) string {
	n := rng.PickInt(255, 256, 1000, 1023, 1024, 1025, 2048, 3000, 4096) + rng.Range(0, 3)
	if rng.P(0.3) {
		return strings.Repeat("a", n)
	}
	return rng.Text(n, "abcdef 0123456789-_/.")
}

// textValue is a value without quotes and line breaks.
func textValue(rng *core.Rand) string {
	switch rng.Intn(10) {
	case 0:
		return ""
	case 1:
		return rng.Pick("1", "11", "111", "a", "A", "aa", "ab", "b", "ba", " ", "  ", "0", "00", "-1", "1.0", "1e0", "x=y", "=", "==", "a=b=c", "a where b", "and", "GB", "gb", "select", "*", "%41", "a+b", "a&q=b", "é", "e\u0301", "\\", "\"")
	case 2:
		return rng.Text(rng.Range(1, 3), "ab")
	case 3:
		return rng.Text(rng.Range(1, 8), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789")
	case 4:
		return rng.Text(rng.Range(20, 600), "abcdef 0123456789-_/=.")
	case 5:
		b := rng.Bytes(rng.Range(1, 12))
		for i := range b {
			if b[i] == '\'' || b[i] == '\n' || b[i] == '\r' || b[i] == '\t' {
				b[i] = 0
			}
		}
		return string(b)
	case 6:
		return strconv.Itoa(rng.Intn(1000))
	case 7:
		return rng.Pick("Europe/London", "Europe/Paris", "Africa/Abidjan", "America/Argentina/Buenos_Aires", "\\N")
	case 8: // wrapped in something that might be taken off or interpreted
		w := rng.Pick("\"\"", "``", "[]", "{}", "()", "<>", "  ", "%%", "$$", "**", "//", "||", "\\\\", "\x00\x00", "++")
		return w[:1] + rng.Pick("", "", "a", "ab", "1", "a b", w, "x"+w[1:]) + w[1:]
	}
	return rng.Text(2, "ABCDEFGH")
}

// numText writes v, perhaps rounded, in one of the many ways that are numbers.
func numText(rng *core.Rand, v float64) string {
	for {
		s := someNumText(rng, v)
		if _, ok := numberText(s); ok {
			return s // a rounded value may be out of range
		}
	}
}

func someNumText(rng *core.Rand, v float64) string {
	switch rng.Intn(14) {
	case 9, 10:
		// as many digits as there are, perhaps more than a number holds
		if a := math.Abs(v); a < 1e25 && a > 1e-8 {
			s := strconv.FormatFloat(v, 'f', -1, 64)
			switch rng.Intn(3) {
			case 0:
				s = strconv.FormatFloat(v, 'f', rng.Range(0, 30), 64)
			case 1:
				if strings.Contains(s, ".") {
					s += rng.Text(rng.Range(1, 12), "0123456789")
				}
			}
			return s
		}
	case 11:
		if a := math.Abs(v); a < 1e25 && v == math.Trunc(v) && a > 1 {
			s := strconv.FormatFloat(v, 'f', 0, 64)
			return s + rng.Pick("", "0", "000") + rng.Text(rng.Range(0, 4), "0123456789")
		}
	case 0:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(v, 'E', -1, 64)
	case 2:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if !strings.HasPrefix(s, "-") {
			s = "+" + s
		}
		return s
	case 3:
		return strconv.FormatFloat(v, 'x', -1, 64)
	case 4:
		return strconv.FormatFloat(v, 'g', rng.Range(1, 17), 64)
	case 5:
		if a := math.Abs(v); a < 1e18 && a > 1e-6 || v == 0 {
			s := strconv.FormatFloat(v, 'f', -1, 64)
			s = strings.Replace(s, "0.", ".", 1)
			if f, err := strconv.ParseFloat(s, 64); err == nil && f == v {
				return s
			}
		}
	case 6:
		if v == math.Trunc(v) && math.Abs(v) < 1e15 {
			return strconv.FormatFloat(v, 'f', 0, 64) + "."
		}
	case 7:
		if math.Abs(v) < 1e18 {
			return strconv.FormatFloat(v, 'f', rng.Range(0, 12), 64)
		}
	case 8:
		if v > 0 {
			return "00" + strconv.FormatFloat(v, 'g', -1, 64)
		}
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

// feed makes acceptable observations for a schema.
type feed struct {
	rng    *core.Rand
	m      *model
	keys   map[string][]string
	nums   map[string][]float64
	noKey  float64 // probability that a key is missing
	noData float64 // probability that a measured field is missing
	extra  []string
	big    float64
}

func newFeed(rng *core.Rand, m *model, perKey, n int) *feed {
	f := &feed{rng: rng, m: m, keys: map[string][]string{}, nums: map[string][]float64{}}
	f.noKey = rng.Float64() * 0.1
	f.noData = rng.Float64() * 0.7
	for _, k := range m.s.keys {
		for i := 0; i < perKey; i++ {
			v := textValue(rng)
			if m.s.numeric(k) {
				v = numText(rng, float64(rng.Range(-5, 5)))
			}
			f.keys[k] = append(f.keys[k], v)
		}
	}
	for _, fs := range m.s.fields {
		if m.s.numeric(fs.name) {
			_, f.nums[fs.name] = exact.Values(rng, n)
			if rng.P(0.03) {
				f.nums[fs.name] = append(f.nums[fs.name], math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64)
			}
		}
	}
	used := map[string]bool{}
	for _, k := range m.s.keys {
		used[k] = true
	}
	for _, fs := range m.s.fields {
		used[fs.name] = true
	}
	for _, n := range fieldNames {
		if !used[n] {
			f.extra = append(f.extra, n)
		}
	}
	return f
}

// next makes an observation. It is never ambiguous in the sense of the known finding.
func (f *feed) next() obs {
	for {
		o := f.try()
		if !f.m.clash(o) {
			return o
		}
	}
}

func (f *feed) try() obs {
	rng := f.rng
	var o obs
	has := map[string]bool{}
	for _, k := range f.m.s.keys {
		if rng.P(f.noKey) {
			continue
		}
		o = append(o, kv{k, f.keys[k][rng.Intn(len(f.keys[k]))]})
		has[k] = true
	}
	for _, fs := range f.m.s.fields {
		if has[fs.name] || rng.P(f.noData) {
			continue
		}
		isKey := false
		for _, k := range f.m.s.keys {
			isKey = isKey || k == fs.name
		}
		if isKey {
			continue
		}
		has[fs.name] = true
		if vs := f.nums[fs.name]; vs != nil {
			o = append(o, kv{fs.name, numText(rng, vs[rng.Intn(len(vs))])})
		} else {
			o = append(o, kv{fs.name, textValue(rng)})
		}
	}
	for rng.P(0.3) {
		n := f.extra[rng.Intn(len(f.extra))]
		if !has[n] {
			has[n] = true
			o = append(o, kv{n, textValue(rng)})
		}
	}
	if rng.P(0.01) {
		o = stuff(rng, o)
	}
	rng.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

// stuff adds many fields that mean nothing, within the limit of a line.
func stuff(rng *core.Rand, o obs) obs {
	room := 60000
	for _, p := range o {
		room -= len(p.f) + len(p.v) + 2
	}
	for i := rng.PickInt(20, 60, 130, 300, 1030, 4100) + rng.Intn(10); i > 0 && room > 20; i-- {
		p := kv{"zz" + strconv.Itoa(i), rng.Pick("", "1", "x")}
		o = append(o, p)
		room -= len(p.f) + len(p.v) + 2
	}
	return o
}

// bytesOf lists the bytes that occur in the observations.
func bytesOf(os []obs) (used [256]bool) {
	for _, o := range os {
		for _, p := range o {
			for i := 0; i < len(p.f); i++ {
				used[p.f[i]] = true
			}
			for i := 0; i < len(p.v); i++ {
				used[p.v[i]] = true
			}
		}
	}
	used['='] = true
	used['\n'] = true
	used['\r'] = true
	for d := '0'; d <= '9'; d++ {
		used[d] = true
	}
	return used
}

// delimFor picks a delimiter that does not occur in the observations.
func delimFor(rng *core.Rand, os []obs) byte {
	used := bytesOf(os)
	for _, d := range []byte{'\t', ',', ';', '|', ' ', ':', 0, 1, 0xff, 'z', '&', '%', '+', 0x80} {
		if !used[d] && rng.P(0.5) {
			return d
		}
	}
	for {
		d := byte(rng.Intn(256))
		if !used[d] {
			return d
		}
	}
}

func timestamp(rng *core.Rand) string {
	switch rng.Intn(6) {
	case 0:
		return strconv.Itoa(rng.Intn(1000))
	case 1:
		return rng.Pick("9223372036854775", "9223372036854776", "9223372036854775807", "0", "00", "0000000000000000000", "0001480000000000000", "2147483648", "4294967296")
	case 3:
		// any length up to that of the largest number
		n := rng.Range(1, 18)
		return rng.Text(n, "123456789")
	case 2:
		return fmt.Sprintf("%d", 1470000000000000+rng.Intn(1000000000))
	}
	return "1480000000000000"
}
