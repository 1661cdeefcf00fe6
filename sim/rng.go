package main

// rng is the only source of random choices of the simulator (splitmix64).
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *rng) rangei(a, b int) int      { return a + r.intn(b-a+1) }
func (r *rng) chance(num, den int) bool { return r.intn(den) < num }
func (r *rng) pick(s []string) string   { return s[r.intn(len(s))] }
func (r *rng) fork() *rng               { return &rng{r.u64()} }

func weighted(r *rng, w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
