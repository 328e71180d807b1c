package main

import (
	"encoding/binary"
	"fmt"
	"strconv"

	"github.com/iand/starbow/internal/verifmon/core"
)

// A population is an infinite sequence of distinct items.
type population struct {
	name string
	item func(i int) []byte
}

// populations of distinct items whose differences lie in few or many bytes.
func makePopulation(rng *core.Rand, which int) population {
	p := somePopulation(rng, which)
	off := rng.Intn(1000)
	if rng.P(0.7) {
		off = rng.Intn(100000000)
	}
	inner := p.item
	p.item = func(i int) []byte { return inner(i + off) }
	p.name = fmt.Sprintf("%s (+%d)", p.name, off)
	return p
}

func somePopulation(rng *core.Rand, which int) population {
	base := int(rng.Uint64() % 1000000000)
	key := rng.Uint64()
	pre := rng.Text(rng.Range(0, 20), "abcdefghij-/_ ABC")
	suf := rng.Text(rng.Range(0, 40), "abcdefghij.:;xyz012")
	switch which % numPopulations {
	case 0:
		return population{"decimal from 0", func(i int) []byte { return []byte(strconv.Itoa(i)) }}
	case 1:
		return population{"decimal from " + strconv.Itoa(base), func(i int) []byte { return []byte(strconv.Itoa(base + i)) }}
	case 2:
		return population{"zero padded decimal", func(i int) []byte { return []byte(fmt.Sprintf("%010d", base+i)) }}
	case 3:
		return population{"prefix + number: " + pre, func(i int) []byte { return []byte(pre + strconv.Itoa(i)) }}
	case 4:
		return population{"number + suffix: " + suf, func(i int) []byte { return []byte(strconv.Itoa(i) + "x" + suf) }}
	case 5:
		return population{"letters, base 26", func(i int) []byte {
			b := []byte{}
			for n := i + 26; n > 0; n /= 26 {
				b = append(b, byte('A'+n%26))
			}
			return b
		}}
	case 6:
		return population{"8 bytes little endian", func(i int) []byte {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(base+i))
			return b[:]
		}}
	case 7:
		return population{"8 bytes big endian", func(i int) []byte {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], uint64(base+i))
			return b[:]
		}}
	case 8:
		return population{"random 8 bytes", func(i int) []byte {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], core.Mix(key, uint64(i)))
			return b[:]
		}}
	case 9:
		return population{"long binary, differing in the last bytes", func(i int) []byte {
			b := make([]byte, 100)
			for j := range b {
				b[j] = byte(core.Mix(key, uint64(j)))
			}
			binary.BigEndian.PutUint32(b[96:], uint32(i))
			return b
		}}
	case 10:
		return population{"long binary, differing in the first bytes", func(i int) []byte {
			b := make([]byte, 60)
			binary.BigEndian.PutUint32(b, uint32(i))
			return b
		}}
	case 11:
		return population{"runs of one byte and a counter", func(i int) []byte {
			b := make([]byte, 1+i%7)
			for j := range b {
				b[j] = 0xff
			}
			return append(b, strconv.Itoa(i/7)...)
		}}
	case 12:
		return population{"decimal fractions", func(i int) []byte {
			return []byte(strconv.FormatFloat(float64(base%10000)+float64(i)/1000, 'f', 3, 64))
		}}
	case 13:
		return population{"timestamps", func(i int) []byte {
			return []byte(fmt.Sprintf("2016-11-%02dT%02d:%02d:%02d.%06dZ", 1+i%28, i/28%24, i/672%60, i/40320%60, i/2419200))
		}}
	case 14:
		return population{"random hex", func(i int) []byte { return []byte(fmt.Sprintf("%016x", core.Mix(key, uint64(i)))) }}
	case 16:
		l := rng.PickInt(rng.Range(260, 300), rng.Range(260, 300), rng.Range(513, 600), rng.Range(1025, 1100), rng.Range(300, 5000))
		at := rng.PickInt(0, l/2, l-9, rng.Range(0, l-9), rng.Range(0, l-9))
		b := make([]byte, l)
		for j := range b {
			b[j] = byte('a' + core.Mix(key, uint64(j))%26)
		}
		return population{fmt.Sprintf("%d bytes, differing from byte %d", l, at), func(i int) []byte {
			v := append([]byte(nil), b...)
			copy(v[at:], fmt.Sprintf("%09d", i))
			return v
		}}
	default:
		return population{"shuffled small numbers with UTF-8 suffix", func(i int) []byte { return []byte(strconv.Itoa(i*7+3) + "é✓") }}
	}
}

const numPopulations = 17

// longPopulation is the one with items of hundreds or thousands of bytes.
const longPopulation = 16
