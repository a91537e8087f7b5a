package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/si-co/vpir-code/zzsim/rt"
)

// Ctx is what a scenario works with: the simulation, the seeded choices, and
// the place where coverage is recorded.
type Ctx struct {
	*rt.Sim
	Prop     string
	Scenario string
	sig      map[string]bool
	checks   int
	nontriv  bool
	thorough bool
	// the lattice clients' source of randomness: zeroes in reads of more bytes
	zeroRnd  bool
	zeroUpTo int
	soft     string
	tags     map[string]int
	procs    int // how parties share processes, drawn on first use
	proc     *rt.Node
}

// libNode is the process a library user or server runs in: one of its own,
// one for all clients, or one for all parties.
func (x *Ctx) libNode(name string, server bool) *rt.Node {
	if x.procs == 0 {
		x.procs = x.Pick("processes", 1, 1, 2, 3)
	}
	if x.procs == 1 || server && x.procs == 2 {
		return x.NewNode(name).Light()
	}
	if x.proc == nil {
		x.proc = x.NewNode("process").Light()
		x.Cover("processes=%d", x.procs)
	}
	return x.proc
}

// Choice draws an integer below n; 0 is the simplest value.
func (x *Ctx) Choice(label string, n int) int { return x.C.Intn(label, n) }

// Pick draws one of the values; the first is the simplest.
func (x *Ctx) Pick(label string, v ...int) int { return v[x.C.Intn(label, len(v))] }

// PickS draws one of the strings.
func (x *Ctx) PickS(label string, v ...string) string { return v[x.C.Intn(label, len(v))] }

// Chance is true with probability p percent.
func (x *Ctx) Chance(label string, p int) bool { return x.C.Pct(label, p) }

// Check counts one oracle evaluation and fails the run if it does not hold.
func (x *Ctx) Check(ok bool, kind, format string, a ...interface{}) {
	x.checks++
	if !ok {
		x.Fail(x.Prop, x.Scenario+"/"+kind, format, a...)
	}
}

// Cover records a coverage point of this run.
func (x *Ctx) Cover(format string, a ...interface{}) {
	x.sig[fmt.Sprintf(format, a...)] = true
}

// Nontrivial marks the run as having exercised what the property is about.
func (x *Ctx) Nontrivial() { x.nontriv = true }

func (x *Ctx) signature() string {
	var l []string
	for k := range x.sig {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Scenario is one family of simulated executions for a property.
type Scenario struct {
	Name   string
	Weight int
	Steps  int64 // statement budget, 0 for the default
	Run    func(x *Ctx)
}

// Property is one claimed property.
type Property struct {
	ID        string
	Rule      string
	Real      string
	Stub      string
	Assume    []string
	Scenarios []Scenario
}

var props = map[string]*Property{}

func register(p *Property) { props[p.ID] = p }

// RunResult is what one simulated run reports.
type RunResult struct {
	Seed     uint64         `json:"seed"`
	Scenario string         `json:"scenario"`
	Failure  *rt.Failure    `json:"failure,omitempty"`
	Hash     uint64         `json:"hash"`
	Sig      string         `json:"sig"`
	Points   []string       `json:"points"`
	Checks   int            `json:"checks"`
	Nontriv  bool           `json:"nontriv"`
	SimNs    int64          `json:"sim_ns"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	Counters map[string]int `json:"counters"`
	Record   *rt.Record     `json:"record,omitempty"`
	trace    []string
}

// runOne executes one run of a property.
func runOne(p *Property, scen string, c *rt.Choices, thorough, trace bool) *RunResult {
	var sc *Scenario
	if scen == "" {
		tot := 0
		for _, s := range p.Scenarios {
			tot += s.Weight
		}
		r := int(mix64(c.Seed+77) % uint64(tot))
		for i := range p.Scenarios {
			if r < p.Scenarios[i].Weight {
				sc = &p.Scenarios[i]
				break
			}
			r -= p.Scenarios[i].Weight
		}
	} else {
		for i := range p.Scenarios {
			if p.Scenarios[i].Name == scen {
				sc = &p.Scenarios[i]
			}
		}
		if sc == nil {
			fatalf("property %s has no scenario %q", p.ID, scen)
		}
	}
	x := &Ctx{Prop: p.ID, Scenario: sc.Name, sig: map[string]bool{}, thorough: thorough}
	s := rt.Run(c, rt.Options{Trace: trace}, func(s *rt.Sim) {
		x.Sim = s
		if sc.Steps > 0 {
			s.StepLimit = sc.Steps
		}
		sc.Run(x)
	})
	r := &RunResult{Seed: c.Seed, Scenario: sc.Name, Failure: s.Failure, Hash: s.Hash(), Checks: x.checks, Nontriv: x.nontriv,
		SimNs: s.Now(), Steps: s.Steps, Switches: s.Switches, Counters: s.Counters, trace: s.Trace()}
	if r.Failure != nil {
		if r.Failure.Property == "" {
			r.Failure.Property = p.ID
			r.Failure.Kind = sc.Name + "/" + r.Failure.Kind
		}
		r.Record = c.Record()
	}
	for k := range x.sig {
		r.Points = append(r.Points, k)
	}
	sort.Strings(r.Points)
	r.Sig = sc.Name + ": " + x.signature()
	return r
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// RandFor returns a source of its own for every call.
func (x *Ctx) RandFor(tag string) *rand.Rand {
	if x.tags == nil {
		x.tags = map[string]int{}
	}
	x.tags[tag]++
	return x.Sim.RandFor(fmt.Sprintf("%s#%d", tag, x.tags[tag]))
}
