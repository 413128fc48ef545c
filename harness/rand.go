package main

import "hash/fnv"

// Rand is splitmix64: the cases of a seed are the same with every toolchain
type Rand struct{ s uint64 }

func NewRand(seed uint64, parts ...string) *Rand {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	r := &Rand{s: h.Sum64() ^ seed*0x9e3779b97f4a7c15}
	r.Uint64()
	return r
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn returns a number in [0, n)
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [a, b]
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability num/den
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }

func (r *Rand) Pick(s []string) string { return s[r.Intn(len(s))] }

// W picks an index by weight
func (r *Rand) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := r.Intn(sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
