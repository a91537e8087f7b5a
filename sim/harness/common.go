package main

import (
	"bytes"
	"compress/gzip"
	crand "crypto/rand"
	"encoding/gob"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	"github.com/si-co/vpir-code/zzsim/rt"
)

// ---- key fixtures (generated once by tools/genkeys: key generation is not repeatable) ----

// Fixture is one OpenPGP key as it appears in a dump, and what is known of it.
type Fixture struct {
	Raw     []byte
	Email   string
	Created int64
	Revoked bool
	Kind    string
	Algo    string
	Bits    int
	IDs     []string

	of *Fixture // the key this one was made from
}

var fixtures []Fixture
var fixByKind = map[string][]*Fixture{}

func initFixtures() {
	p := os.Getenv("ZZFIXTURES")
	if p == "" {
		e, _ := os.Executable()
		p = filepath.Join(filepath.Dir(e), "..", "..", "fixtures", "keys.gob.gz")
	}
	f, err := os.Open(p)
	if err != nil {
		fatalf("fixtures: %v", err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		fatalf("fixtures: %v", err)
	}
	if err := gob.NewDecoder(z).Decode(&fixtures); err != nil {
		fatalf("fixtures: %v", err)
	}
	for i := range fixtures {
		fixByKind[fixtures[i].Kind] = append(fixByKind[fixtures[i].Kind], &fixtures[i])
	}
	fillMails()
}

// ---- a message layer for library-level runs ----

// Peer is one server of a library-level run: its own process, reached over a
// network that delays, reorders and duplicates.
type Peer struct {
	Node   *rt.Node
	Answer func(q []byte) ([]byte, error)
}

// Reply is what came back from a peer.
type Reply struct {
	Ans  []byte
	Err  error
	Died string
}

// LinkCfg says how messages between the parties of a library-level run behave.
type LinkCfg struct {
	Max     time.Duration
	DupPct  int
	SlowPct int
}

func (x *Ctx) drawLink() LinkCfg {
	l := LinkCfg{}
	switch x.Choice("link", 4) {
	case 1:
		l.Max = time.Millisecond
	case 2:
		l.Max = 200 * time.Millisecond
		l.DupPct = 10
	case 3:
		l.Max = 20 * time.Millisecond
		l.SlowPct = 20
		l.DupPct = 20
	}
	return l
}

func (x *Ctx) lat(l LinkCfg) time.Duration {
	if l.Max == 0 {
		return 0
	}
	d := time.Duration(x.Choice("lat", 1000)) * l.Max / 1000
	if l.SlowPct > 0 && x.Chance("slow", l.SlowPct) {
		x.Count("fault:slow-link")
		d += time.Duration(1+x.Choice("slowby", 20)) * 50 * time.Millisecond
	}
	return d
}

// Ask sends queries[i] to peers[i] and collects the replies, in the order of
// the peers.
func (x *Ctx) Ask(peers []*Peer, queries [][]byte, l LinkCfg) []Reply {
	n := len(peers)
	rs := make([]Reply, n)
	left := n
	done := &rt.Done{}
	for i := range peers {
		i := i
		p := peers[i]
		if p.Node.Crashed || p.Node.Exited {
			rs[i].Died = "server had ended before: " + p.Node.CrashMsg + p.Node.FatalMsg
			left--
			if left == 0 {
				done.Set()
			}
			continue
		}
		copies := 1
		if l.DupPct > 0 && x.Chance("dup", l.DupPct) {
			copies = 2
			x.Count("fault:duplicate")
		}
		got := false
		pend := copies
		for c := 0; c < copies; c++ {
			q := append([]byte{}, queries[i]...)
			g := x.GoOn(p.Node, "request", func() {
				x.Sleep(x.lat(l))
				a, err := p.Answer(q)
				a = append([]byte(nil), a...)
				x.Sleep(x.lat(l))
				if !got {
					got = true
					rs[i] = Reply{Ans: a, Err: err}
					left--
					if left == 0 {
						done.Set()
					}
				}
			})
			rt.OnExit(g, func() {
				pend--
				if pend == 0 && !got {
					got = true
					rs[i].Died = "server ended: " + p.Node.CrashMsg + p.Node.FatalMsg
					left--
					if left == 0 {
						done.Set()
					}
				}
			})
		}
	}
	if !done.Wait(time.Hour) {
		x.Fail(x.Prop, x.Scenario+"/no-answer", "a server did not answer within an hour of simulated time")
	}
	return rs
}

// Honest checks that every server answered and returns the answers.
func (x *Ctx) Honest(peers []*Peer, rs []Reply) [][]byte {
	var out [][]byte
	for i, r := range rs {
		x.Check(r.Died == "", "server-crash", "server %s ended while answering a well-formed query: %s\n%s", peers[i].Node.Name(), r.Died, peers[i].Node.CrashStack)
		x.Check(r.Err == nil, "server-error", "server %s refused a well-formed query: %v", peers[i].Node.Name(), r.Err)
		out = append(out, r.Ans)
	}
	return out
}

// Do runs client code in a process of its own.
func (x *Ctx) Do(name string, f func()) rt.CallResult {
	return x.Call(name, nil, 2*time.Hour, f)
}

// Must runs client code that has to return normally.
func (x *Ctx) Must(name string, f func()) {
	r := x.Do(name, f)
	x.Check(r.OK(), "client-"+name, "%s did not return normally: %s\n%s", name, r, r.Stack)
}

// Par runs the functions as concurrent harness goroutines and waits.
func (x *Ctx) Par(fs ...func()) {
	left := len(fs)
	d := &rt.Done{}
	for i, f := range fs {
		f := f
		x.GoOn(x.Root(), fmt.Sprintf("actor%d", i), func() {
			f()
			left--
			if left == 0 {
				d.Set()
			}
		})
	}
	if len(fs) > 0 {
		if !d.Wait(100 * 24 * time.Hour) {
			x.Fail(x.Prop, x.Scenario+"/stuck", "concurrent clients did not finish")
		}
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x... (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func cloneAll(a [][]byte) [][]byte {
	var o [][]byte
	for _, b := range a {
		o = append(o, append([]byte{}, b...))
	}
	return o
}

func xorInto(dst, src []byte) {
	for i := range src {
		if i < len(dst) {
			dst[i] ^= src[i]
		}
	}
}

var _ = bytes.Equal

// randReader is the process's cryptographic randomness (seeded in a run).
var randReader = simRand{}

type simRand struct{}

func (simRand) Read(p []byte) (int, error) { return crand.Reader.Read(p) }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
