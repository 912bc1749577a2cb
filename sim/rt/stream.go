package rt

type prng struct{ s uint64 }

func newPrng(seed uint64, name string) *prng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	p := &prng{s: seed*0x9E3779B97F4A7C15 ^ h}
	p.next()
	p.next()
	return p
}

func (p *prng) next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Stream is a named sequence of decisions with its own generator, so that the
// number of decisions taken in one does not shift another.
type Stream struct {
	w    *World
	name string
	idx  int64
	r    *prng
}

func (w *World) Stream(name string) *Stream {
	s := w.streams[name]
	if s == nil {
		s = &Stream{w: w, name: name, r: newPrng(w.cfg.Seed, name)}
		w.streams[name] = s
	}
	return s
}

// S returns a named decision stream of the run.
func S_(name string) *Stream { return W.Stream(name) }

func (s *Stream) raw() uint64 { return s.r.next() }

func (s *Stream) take(f func() int64) int64 {
	i := s.idx
	s.idx++
	var v int64
	if s.w.cfg.Replay {
		v = s.w.cfg.Devs[DevKey{s.name, i}]
	} else {
		v = f()
	}
	if v != 0 {
		s.w.Log = append(s.w.Log, Dev{s.name, i, v})
	}
	return v
}

// N draws from [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := int(s.take(func() int64 { return int64(s.r.next() % uint64(n)) }))
	if v >= n {
		v = n - 1
	}
	return v
}

// Chance is true with probability num/den; false is the simple choice.
func (s *Stream) Chance(num, den int) bool {
	return s.take(func() int64 {
		if int(s.r.next()%uint64(den)) < num {
			return 1
		}
		return 0
	}) != 0
}

// Weighted draws an index with the given weights.
func (s *Stream) Weighted(ws ...int) int {
	t := 0
	for _, x := range ws {
		t += x
	}
	v := int(s.take(func() int64 {
		k := int(s.r.next() % uint64(t))
		for i, x := range ws {
			if k < x {
				return int64(i)
			}
			k -= x
		}
		return 0
	}))
	if v >= len(ws) {
		v = 0
	}
	return v
}

// Log draws a value in [0,max], roughly uniform in its logarithm.
func (s *Stream) Log(max int64) int64 {
	if max <= 0 {
		return 0
	}
	v := s.take(func() int64 {
		bits := uint(0)
		for m := max; m > 0; m >>= 1 {
			bits++
		}
		b := uint(s.r.next() % uint64(bits+1))
		if b == 0 {
			return 0
		}
		x := int64(s.r.next() & (1<<b - 1))
		if x > max {
			x = max
		}
		return x
	})
	if v > max {
		v = max
	}
	return v
}
