package main

import (
	"runtime"
	"sort"
	"time"

	"github.com/si-co/vpir-code/zzsim/rt"
)

// shrink minimises the choices of a failing run: fewer preemptions, fewer
// faults, smaller values, while the same violation remains.
func shrink(p *Property, r *RunResult, tier string, limit time.Duration) (*ReplayFile, int) {
	runtime.GOMAXPROCS(1)
	stop := time.Now().Add(limit)
	runs := 0
	best := r.Record
	kind := r.Failure.Kind
	thorough := tier == "thorough"
	try := func(c *rt.Record) bool {
		if time.Now().After(stop) {
			return false
		}
		runs++
		ch := rt.Replay(c)
		q := runOne(p, r.Scenario, ch, thorough, false)
		if q.Failure != nil && q.Failure.Kind == kind && q.Failure.Property == r.Failure.Property {
			n := ch.Record()
			best = n
			return true
		}
		return false
	}
	clone := func() *rt.Record {
		c := *best
		c.Streams = map[string][]int64{}
		for k, v := range best.Streams {
			c.Streams[k] = append([]int64{}, v...)
		}
		return &c
	}
	// calm scheduler
	c := clone()
	c.Sched = rt.SchedCfg{Policy: 1}
	delete(c.Streams, "sched")
	delete(c.Streams, "preempt")
	if !try(c) {
		c = clone()
		c.Sched.StallPm = 0
		try(c)
		c = clone()
		c.Sched.HotPm = 0
		try(c)
		c = clone()
		c.Sched.PreemptMax = 0
		delete(c.Streams, "preempt")
		try(c)
		c = clone()
		c.Sched.PointPct = 0
		delete(c.Streams, "sched")
		try(c)
	}
	for pass := 0; pass < 6 && time.Now().Before(stop); pass++ {
		changed := false
		var names []string
		for k := range best.Streams {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if _, ok := best.Streams[k]; !ok {
				continue
			}
			if allZero(best.Streams[k]) {
				continue
			}
			c := clone()
			delete(c.Streams, k)
			if try(c) {
				changed = true
				continue
			}
			// truncate
			for n := len(best.Streams[k]) / 2; n >= 1 && time.Now().Before(stop); n /= 2 {
				if len(best.Streams[k]) <= n {
					continue
				}
				c := clone()
				c.Streams[k] = c.Streams[k][:len(c.Streams[k])-n]
				if try(c) {
					changed = true
				}
			}
			// zero and delete blocks
			for n := len(best.Streams[k]) / 2; n >= 1 && time.Now().Before(stop); n /= 2 {
				for i := 0; i+n <= len(best.Streams[k]) && time.Now().Before(stop); {
					v := best.Streams[k]
					if !allZero(v[i : i+n]) {
						c := clone()
						for j := i; j < i+n; j++ {
							c.Streams[k][j] = 0
						}
						if try(c) {
							changed = true
							if len(best.Streams[k]) < i+n {
								break
							}
							continue
						}
						if n <= 8 {
							c = clone()
							c.Streams[k] = append(c.Streams[k][:i], c.Streams[k][i+n:]...)
							if try(c) {
								changed = true
								continue
							}
						}
					}
					i += n
				}
				if n == 1 {
					break
				}
			}
			if k == "sched" || k == "preempt" {
				continue
			}
			for i := 0; i < len(best.Streams[k]) && i < 400 && time.Now().Before(stop); i++ {
				for best.Streams[k] != nil && i < len(best.Streams[k]) && best.Streams[k][i] > 1 {
					v := best.Streams[k][i]
					ok := false
					for _, nv := range []int64{1, v / 2, v - 1} {
						if nv >= v {
							continue
						}
						c := clone()
						c.Streams[k][i] = nv
						if try(c) {
							ok, changed = true, true
							break
						}
					}
					if !ok || time.Now().After(stop) {
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// drop trailing zeros, then run once more with a full trace
	q := runOne(p, r.Scenario, rt.Replay(best), thorough, true)
	rf := &ReplayFile{Property: p.ID, Scenario: r.Scenario, Tier: tier, Seed: r.Seed, Record: best, Hash: q.Hash, Trace: q.trace}
	if q.Failure != nil {
		rf.Kind, rf.Msg = q.Failure.Kind, q.Failure.Msg
	} else {
		rf.Kind, rf.Msg = kind, r.Failure.Msg
	}
	return rf, runs
}

func allZero(v []int64) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}
