package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zzsim/rt"
)

// shared is one server value that several callers use at once.
type shared struct {
	name   string
	node   *rt.Node
	answer func([]byte) ([]byte, error)
	query  func() []byte // a new well-formed query for this server
	judge  func(q, a []byte)
	fix    func() []byte
}

func dbBytes(db *database.DB) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%v", db.NumColumns)
	for _, k := range db.KeysInfo {
		fmt.Fprintf(&b, " %v %v %v %v", k.UserId.Email, k.CreationTime.Unix(), k.PubKeyAlgo, k.BitLength)
	}
	return b.Bytes()
}

// someShared draws server values: of one multi-server scheme (any of its
// servers) or of one single-server scheme.
func (x *Ctx) someShared() []*shared {
	var out []*shared
	switch x.Choice("sharedkind", 8) {
	case 0, 1: // point, plain or authenticated
		p := x.makePointDB(false)
		n := len(p.want)
		k := x.Pick("servers", 2, 3)
		info := p.db.Info
		var last [][]byte
		for i, s := range x.pointServers(p, k, "server") {
			i := i
			out = append(out, &shared{name: "point " + p.kind, node: s.Node, answer: s.Answer,
				query: func() []byte {
					x.Do("query", func() {
						last, _ = client.NewPIR(pointRnd(0), &info).QueryBytes(be4(x.pickPos(n, p.db.NumColumns)), k)
					})
					return last[i]
				},
				fix: func() []byte { return append([]byte{}, p.db.Entries...) }})
		}
	case 2, 3, 4, 5: // predicates
		auth := x.Choice("auth", 2) == 1
		w := x.makePredWorld(auth)
		for i, s := range w.servers {
			i := i
			name := "predicate"
			if auth {
				name = "authenticated predicate"
			}
			out = append(out, &shared{name: name, node: s.Node, answer: s.Answer,
				query: func() []byte {
					p := x.somePred(w.ks, x.Choice("pred", nPreds))
					cn := x.NewNode("client").Light()
					return x.predQuery(cn, x.newPredClient(cn, w, 0), p)[i]
				},
				fix: func() []byte { return nil }})
		}
		if x.Choice("oneproc", 3) == 2 {
			// both servers in one process, over one database
			db := buildKeyDB(w.ks, time.UTC)
			nd := x.NewNode("both").Light()
			mk := func(i int) func([]byte) ([]byte, error) {
				var f func([]byte) ([]byte, error)
				nd.Call(time.Hour, func() {
					if auth {
						f = server.NewPredicateAPIR(db, byte(i)).AnswerBytes
					} else {
						f = server.NewPredicatePIR(db, byte(i)).AnswerBytes
					}
				})
				return f
			}
			for i := range out {
				out[i].node = nd
				out[i].answer = mk(i)
				out[i].fix = func() []byte { return dbBytes(db) }
			}
		}
	case 6, 7:
		w := x.makeSingle(x.Choice("single", 4), false)
		out = append(out, &shared{name: w.kind, node: w.server.Node, answer: w.answer,
			query: func() []byte {
				cl := x.ssNewClient(w, "client")
				var q []byte
				var err error
				pos := x.ssPos(w)
				r := cl.node.Call(time.Hour, func() { q, err = cl.query(pos) })
				x.Check(r.OK() && err == nil, "query", "%s query: %s %v", w.kind, r, err)
				return q
			},
			fix: w.fix})
	}
	return out
}

// c08lib: several callers of one server value.
func c08lib(x *Ctx) {
	ss := x.someShared()
	x.Cover("%s", ss[0].name)
	type req struct {
		s    *shared
		q    []byte
		orig []byte
		got  []byte
	}
	var before [][]byte
	for _, s := range ss {
		before = append(before, s.fix())
	}
	var reqs []*req
	n := x.Pick("requests", 2, 3, 5, 8)
	for i := 0; i < n; i++ {
		s := ss[x.Choice("at", len(ss))]
		r := &req{s: s}
		if i > 0 && x.Choice("again", 5) == 4 {
			r.s, r.q = reqs[0].s, reqs[0].q // the same query twice, and the same bytes
		} else {
			r.q = s.query()
		}
		r.orig = append([]byte{}, r.q...)
		reqs = append(reqs, r)
	}
	var acts []func()
	for _, r := range reqs {
		r := r
		dl := x.within("when", time.Duration(x.Pick("spread", 0, 1, 1000))*time.Microsecond)
		acts = append(acts, func() {
			x.Sleep(dl)
			var a []byte
			var err error
			res := r.s.node.Call(time.Hour, func() { a, err = r.s.answer(r.q) })
			x.Check(res.OK(), "crash", "%s: %d callers at once: %s\n%s", r.s.name, n, res, res.Stack)
			x.Check(err == nil, "error", "%s: %d callers at once: %v", r.s.name, n, err)
			r.got = a // kept, not copied: later requests must not reach into it
		})
	}
	x.Par(acts...)
	for _, r := range reqs {
		x.Check(bytes.Equal(r.q, r.orig), "query-changed", "%s: the caller's query was changed", r.s.name)
		snap := append([]byte{}, r.got...)
		var alone []byte
		var err error
		res := r.s.node.Call(time.Hour, func() { alone, err = r.s.answer(append([]byte{}, r.orig...)) })
		x.Check(res.OK() && err == nil, "alone", "%s: a request alone: %s %v", r.s.name, res, err)
		x.Check(bytes.Equal(alone, snap), "influenced", "%s: among %d callers the answer is %s, alone it is %s", r.s.name, n, short(snap), short(alone))
		x.Check(bytes.Equal(snap, r.got), "overwritten", "%s: a later request changed an answer already given", r.s.name)
	}
	for i, s := range ss {
		x.Check(bytes.Equal(before[i], s.fix()), "db-changed", "%s: answering changed the database", s.name)
	}
	x.Nontrivial()
	x.Cover("requests=%d", n)
}
