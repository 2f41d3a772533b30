package wwcheck

import (
	"pgregory.net/rapid"
)

// Blob is a byte string: B followed by N pseudo-random bytes derived from S
type Blob struct {
	B []byte `json:",omitempty"`
	N int    `json:",omitempty"`
	S uint64 `json:",omitempty"`
}

func (b Blob) bytes() []byte {
	out := append([]byte{}, b.B...)
	x := b.S
	for i := 0; i < b.N; i++ {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		out = append(out, byte(z^(z>>31)))
	}
	return out
}

func (b Blob) len() int { return len(b.B) + b.N }

// genLen draws a length in [min,max] favouring boundaries
func genLen(t *rapid.T, min, max int, label string) int {
	if min >= max {
		return min
	}
	var bounds []int
	for _, b := range []int{min, min + 1, 2, 3, 8, 9, 10, 11, 127, 128, 254, 255, 256, 257, 1023, 1024,
		4095, 4096, 65535, 65536, max - 2, max - 1, max} {
		if b >= min && b <= max {
			bounds = append(bounds, b)
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"Mode") {
	case 0:
		return rapid.SampledFrom(bounds).Draw(t, label)
	case 1:
		return rapid.IntRange(min, max).Draw(t, label)
	default:
		m := min + 20
		if m > max {
			m = max
		}
		return rapid.IntRange(min, m).Draw(t, label)
	}
}

// genBlob draws a byte string of a length in [min,max]
func genBlob(t *rapid.T, min, max int, label string) Blob {
	n := genLen(t, min, max, label+"Len")
	if n <= 24 && rapid.Bool().Draw(t, label+"Raw") {
		return Blob{B: rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)}
	}
	return Blob{N: n, S: rapid.Uint64().Draw(t, label+"Seed")}
}

// genName draws a legal message name
func genName(t *rapid.T, min, max int, label string) []byte {
	n := genLen(t, min, max, label+"Len")
	ch := rapid.SampledFrom([]byte{32, 33, 'a', 'b', 'z', '0', '/', 125, 126})
	if n > 16 {
		// A repeated pattern
		pat := rapid.SliceOfN(rapid.ByteRange(32, 126), 1, 3).Draw(t, label+"Pat")
		out := make([]byte, n)
		for i := range out {
			out[i] = pat[i%len(pat)]
		}
		return out
	}
	return rapid.SliceOfN(ch, n, n).Draw(t, label)
}

func genID(t *rapid.T) [8]byte {
	var id [8]byte
	switch rapid.IntRange(0, 2).Draw(t, "idMode") {
	case 0:
		return idOf(uint64(rapid.IntRange(0, 3).Draw(t, "id")))
	case 1:
		copy(id[:], rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "id"))
	default:
		for i := range id {
			id[i] = 0xff
		}
	}
	return id
}

func genEnc(t *rapid.T) int { return rapid.IntRange(0, 2).Draw(t, "enc") }

func evenIf(cond bool, b Blob) Blob {
	if cond && b.len()%2 == 1 {
		if b.N > 0 {
			b.N--
		} else {
			b.B = b.B[:len(b.B)-1]
		}
	}
	return b
}

// genHuge draws a payload whose length would seem to be less than the given one if it were truncated to 8 or 16 bits
func genHuge(t *rapid.T, less int) Blob {
	unit := rapid.SampledFrom([]int{256, 512, 65536, 65536, 131072}).Draw(t, "hugeUnit")
	return Blob{N: unit + genLen(t, 0, less, "hugeRest"), S: rapid.Uint64().Draw(t, "hugeSeed")}
}
