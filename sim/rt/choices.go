package rt

import (
	"math"
	"time"
)

// Choices is the only source of nondeterminism of a run.  In generating mode
// it draws from one seeded PRNG and records; in replay mode it returns the
// recorded values (0, the simplest choice, when exhausted).
type Choices struct {
	Seed   uint64
	replay bool
	rec    map[string][]int64
	pos    map[string]int
	state  map[string]*uint64
	Sched  SchedCfg
	rseed  uint64
	ps, pp *stream
	str    map[string]*stream
}

// SchedCfg is how the scheduler behaves in this run; part of the record.
type SchedCfg struct {
	Policy     int   `json:"policy"`      // 0 uniform, 1 mostly FIFO, 2 mostly LIFO, 3 sticky victim
	PreemptMax int64 `json:"preempt_max"` // 0 none; largest statement slice
	PointPct   int   `json:"point_pct"`   // preemption probability at synchronisation points
	StallPm    int   `json:"stall_pm"`    // stall probability per preemption, per mille
	HotPm      int   `json:"hot_pm"`      // share of functions whose first executions are preempted often, per mille
	HotSeed    int64 `json:"hot_seed"`    // which functions those are
}

// Record is a complete, replayable choice record.
type Record struct {
	Seed    uint64             `json:"seed"`
	Rand    uint64             `json:"rand_seed"`
	Sched   SchedCfg           `json:"sched"`
	Streams map[string][]int64 `json:"streams"`
}

type stream struct {
	c    *Choices
	name string
	rng  uint64
	data []int64
	pos  int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewChoices makes a generating source for a seed.
func NewChoices(seed uint64) *Choices {
	c := &Choices{Seed: seed, str: map[string]*stream{}}
	x := seed*0x2545F4914F6CDD1D + 12345
	c.rseed = splitmix(&x)
	r := splitmix(&x)
	c.Sched.Policy = int(r % 4)
	switch splitmix(&x) % 8 {
	case 0, 1:
		c.Sched.PreemptMax = 0
	case 2:
		c.Sched.PreemptMax = 30
	case 3:
		c.Sched.PreemptMax = 300
	case 4:
		c.Sched.PreemptMax = 3000
	case 5:
		c.Sched.PreemptMax = 30000
	default:
		c.Sched.PreemptMax = 300000
	}
	c.Sched.PointPct = []int{0, 5, 30, 60}[splitmix(&x)%4]
	c.Sched.StallPm = []int{0, 0, 2, 20}[splitmix(&x)%4]
	c.Sched.HotPm = []int{0, 0, 10, 50, 200}[splitmix(&x)%5]
	if c.Sched.HotPm > 0 {
		c.Sched.HotSeed = int64(splitmix(&x) >> 1)
	}
	return c
}

// Replay makes a source that repeats a record.
func Replay(r *Record) *Choices {
	c := &Choices{Seed: r.Seed, replay: true, rseed: r.Rand, Sched: r.Sched, str: map[string]*stream{}}
	for k, v := range r.Streams {
		c.str[k] = &stream{c: c, name: k, data: append([]int64{}, v...)}
	}
	return c
}

// Record returns what was chosen so far.
func (c *Choices) Record() *Record {
	r := &Record{Seed: c.Seed, Rand: c.rseed, Sched: c.Sched, Streams: map[string][]int64{}}
	for k, s := range c.str {
		d := s.data
		if c.replay && s.pos < len(d) {
			d = d[:s.pos]
		}
		if len(d) > 0 {
			r.Streams[k] = append([]int64{}, d...)
		}
	}
	return r
}

// RandSeed seeds the unshrinkable randomness (cryptographic bytes, contents).
func (c *Choices) RandSeed() uint64 { return c.rseed }

func (c *Choices) stream(name string) *stream {
	s := c.str[name]
	if s == nil {
		h := c.Seed ^ 0xabcdef
		for i := 0; i < len(name); i++ {
			h = (h ^ uint64(name[i])) * 0x100000001b3
		}
		s = &stream{c: c, name: name, rng: h}
		c.str[name] = s
	}
	return s
}

func (s *stream) draw(gen func(r uint64) int64, lo, hi int64) int64 {
	if s.c.replay {
		if s.pos < len(s.data) {
			v := s.data[s.pos]
			s.pos++
			if v < lo || v > hi {
				if hi >= lo {
					span := hi - lo + 1
					v = lo + ((v-lo)%span+span)%span
				} else {
					v = lo
				}
			}
			return v
		}
		s.pos++
		return lo
	}
	v := gen(splitmix(&s.rng))
	s.data = append(s.data, v)
	return v
}

// Intn draws a value in [0,n) from a labelled stream; 0 is the simplest.
func (c *Choices) Intn(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.stream(label).draw(func(r uint64) int64 { return int64(r % uint64(n)) }, 0, int64(n-1)))
}

// Pct is true with probability p percent; false is the simplest.
func (c *Choices) Pct(label string, p int) bool {
	if p <= 0 {
		return false
	}
	return c.stream(label).draw(func(r uint64) int64 {
		if int(r%100) < p {
			return 1
		}
		return 0
	}, 0, 1) == 1
}

// Weighted draws an index with the given weights.
func (c *Choices) Weighted(label string, w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	return int(c.stream(label).draw(func(r uint64) int64 {
		v := int(r % uint64(tot))
		for i, x := range w {
			if v < x {
				return int64(i)
			}
			v -= x
		}
		return 0
	}, 0, int64(len(w)-1)))
}

func (c *Choices) schedStream() *stream {
	if c.ps == nil {
		c.ps = c.stream("sched")
	}
	return c.ps
}

func (c *Choices) preStream() *stream {
	if c.pp == nil {
		c.pp = c.stream("preempt")
	}
	return c.pp
}

// sched picks one of n runnable goroutines.
func (c *Choices) sched(s *Sim, n int) int {
	pol := c.Sched.Policy
	return int(c.schedStream().draw(func(r uint64) int64 {
		u := r >> 8
		switch pol {
		case 1:
			if r%8 != 0 {
				return 0
			}
		case 2:
			if r%8 != 0 {
				return int64(n - 1)
			}
		case 3:
			// avoid the victim goroutine class if possible
			v := int(c.rseed % 7)
			k := int(u % uint64(n))
			if s.runq[k].id%7 == v && r%16 != 0 {
				k = (k + 1) % n
			}
			return int64(k)
		}
		return int64(u % uint64(n))
	}, 0, int64(n-1)))
}

// slice is the number of statements until the next preemption; 0 = none.
func (c *Choices) slice(s *Sim) int64 {
	max := c.Sched.PreemptMax
	if s.cur != nil && s.cur.hot > 0 {
		s.cur.hot--
		return c.preStream().draw(func(r uint64) int64 {
			if r%8 == 0 {
				return 0
			}
			return 1 + int64((r>>8)%(1+(r>>40)%16))
		}, 0, never)
	}
	if max == 0 {
		return 0
	}
	return c.preStream().draw(func(r uint64) int64 {
		if r%5 == 0 {
			return 0
		}
		// log-uniform in [1,max]
		f := float64((r>>8)%(1<<40)) / float64(uint64(1)<<40)
		return 1 + int64(math.Exp(f*math.Log(float64(max))))
	}, 0, never)
}

func (c *Choices) point(s *Sim) bool {
	p := c.Sched.PointPct
	if p == 0 {
		return false
	}
	return c.schedStream().draw(func(r uint64) int64 {
		if int(r%100) < p {
			return 1
		}
		return 0
	}, 0, 1) == 1
}

// pause is a wait too short to upset anyone, in a hot function.
func (c *Choices) pause(s *Sim) time.Duration {
	if s.cur.hot == 0 || !s.cur.mayPause || s.paused >= pauseTotal {
		return 0
	}
	v := c.preStream().draw(func(r uint64) int64 {
		if r%8 == 0 {
			return int64(1 + (r>>10)%15)
		}
		return 0
	}, 0, 15)
	if v == 0 {
		return 0
	}
	d := time.Duration(1<<uint(v)) * time.Microsecond // 2us .. 33ms
	s.paused += d
	s.cur.mayPause = false
	return d
}

const pauseTotal = 2 * time.Second

func (c *Choices) stall(s *Sim) time.Duration {
	p := c.Sched.StallPm
	if p == 0 || s.noStall {
		return 0
	}
	v := c.preStream().draw(func(r uint64) int64 {
		if int(r%1000) < p {
			return int64(1 + (r>>10)%12)
		}
		return 0
	}, 0, 12)
	if v == 0 {
		return 0
	}
	return time.Duration(1<<uint(2*v)) * time.Microsecond // 4us .. 16s
}
