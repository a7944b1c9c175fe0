package h

import (
	"fmt"

	"pgregory.net/rapid"
)

// Amount draws a liability in [0, max] with interesting values.
func Amount(c *C, name string, max int64) int64 {
	var v int64
	switch rapid.IntRange(0, 6).Draw(c.T, name+".kind") {
	case 0:
		return 0
	case 1:
		v = rapid.Int64Range(1, 9).Draw(c.T, name)
	case 2, 3:
		k := rapid.IntRange(1, 62).Draw(c.T, name+".bit")
		v = int64(1)<<uint(k) + int64(rapid.IntRange(-1, 1).Draw(c.T, name))
	case 4:
		v = max - int64(rapid.IntRange(0, 2).Draw(c.T, name))
	default:
		v = int64(rapid.Uint64().Draw(c.T, name) >> 1)
	}
	if v > max {
		if max <= 0 {
			return 0
		}
		v = v % max
	}
	if v < 0 {
		v = 0
	}
	return v
}

// DensePath draws a path of the given depth. Paths cluster so that siblings, cousins
// and shared prefixes are frequent.
func TreePath(c *C, name string, fanOut, depth int, known [][]uint16) []uint16 {
	p := make([]uint16, depth)
	keep := 0
	if len(known) > 0 && rapid.IntRange(0, 4).Draw(c.T, name+".near") > 0 {
		base := known[rapid.IntRange(0, len(known)-1).Draw(c.T, name+".base")]
		keep = rapid.IntRange(0, depth).Draw(c.T, name+".keep")
		copy(p, base[:keep])
	}
	for i := keep; i < depth; i++ {
		p[i] = Index(c, fmt.Sprintf("%s[%d]", name, i), fanOut)
	}
	return p
}

// Index draws a child index with the first and last ones frequent.
func Index(c *C, name string, fanOut int) uint16 {
	switch rapid.IntRange(0, 3).Draw(c.T, name+".kind") {
	case 0:
		return 0
	case 1:
		return uint16(fanOut - 1)
	default:
		return uint16(rapid.IntRange(0, fanOut-1).Draw(c.T, name))
	}
}

// DenseID draws a nine digit identifier, leading zeroes and extremes included.
func DenseID(c *C, name string) string {
	switch rapid.IntRange(0, 4).Draw(c.T, name+".kind") {
	case 0:
		return fmt.Sprintf("%09d", rapid.IntRange(0, 3).Draw(c.T, name))
	case 1:
		return fmt.Sprintf("%09d", 999999999-rapid.IntRange(0, 3).Draw(c.T, name))
	case 2:
		return fmt.Sprintf("%09d", rapid.IntRange(0, 9999).Draw(c.T, name))
	default:
		return fmt.Sprintf("%09d", rapid.IntRange(0, 999999999).Draw(c.T, name))
	}
}

// HexID draws a 64 digit hexadecimal identifier.
func HexID(c *C, name string) string {
	const digits = "0123456789abcdefABCDEF"
	b := make([]byte, 64)
	zeroes := 0
	if rapid.IntRange(0, 2).Draw(c.T, name+".kind") == 2 {
		zeroes = rapid.IntRange(1, 63).Draw(c.T, name+".zeroes")
	}
	n := rapid.Uint64
	var w uint64
	for i := range b {
		if i%12 == 0 {
			w = n().Draw(c.T, name)
		}
		b[i] = digits[w%22]
		w /= 22
		if i < zeroes {
			b[i] = '0'
		}
	}
	return string(b)
}
