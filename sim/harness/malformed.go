package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/url"
	"runtime"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/zzsim/rt"
	gproto "google.golang.org/protobuf/proto"
)

// garble replaces an answer by what a broken or hostile server might send.
// The plan is drawn first so that several servers can follow the same one.
type garbling struct {
	how    int
	cut    int // in 1/1000 of the length
	add    int
	seed   int64
	val    byte
	number uint32
}

func (x *Ctx) someGarbling() garbling {
	nums := []uint32{0xffffffff, 0x7fffffff, 0x80000000, 1 << 30, 1 << 24, 0, 1, 65536, 0xfffffffc}
	return garbling{
		how:    x.Choice("garble", 17),
		cut:    x.Choice("gcut", 1001),
		add:    x.Pick("gadd", 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 100, 5000),
		seed:   int64(x.Choice("gseed", 1<<30)),
		val:    byte(x.Pick("gval", 0, 0xff, 0x80, 0x7f, 1, 4)),
		number: nums[x.Choice("gnum", len(nums))],
	}
}

var garbleNames = []string{"as it is", "nil", "empty", "cut", "short by a few", "one byte", "extended", "doubled", "random", "random length", "filled", "number in front", "number at a word", "number at the end", "of another scheme", "huge", "bits flipped"}

func (g garbling) apply(a []byte, others [][]byte) []byte {
	r := rand.New(rand.NewSource(g.seed))
	a = append([]byte{}, a...)
	put := func(at int) {
		var b [4]byte
		if r.Intn(2) == 0 {
			binary.LittleEndian.PutUint32(b[:], g.number)
		} else {
			binary.BigEndian.PutUint32(b[:], g.number)
		}
		if at >= 0 {
			copy(a[min(at, len(a)):], b[:])
		}
	}
	switch g.how {
	case 1:
		return nil
	case 2:
		return []byte{}
	case 3:
		return a[:len(a)*g.cut/1000]
	case 4:
		return a[:max(0, len(a)-g.add)]
	case 5:
		return []byte{g.val}
	case 6:
		return append(a, randBytes(r, g.add)...)
	case 7:
		return append(a, a...)
	case 8:
		return randBytes(r, len(a))
	case 9:
		return randBytes(r, r.Intn(g.add*4+2))
	case 10:
		for i := range a {
			a[i] = g.val
		}
	case 11:
		put(0)
		if r.Intn(2) == 0 {
			put(4)
		}
	case 12:
		if len(a) >= 4 {
			put(r.Intn(len(a)/4) * 4)
		}
	case 13:
		put(len(a) - 4*(1+r.Intn(3)))
	case 14:
		if len(others) > 0 {
			return append([]byte{}, others[r.Intn(len(others))]...)
		}
	case 15:
		return randBytes(r, 1<<20+g.add)
	case 16:
		for k := 0; k < 1+r.Intn(8) && len(a) > 0; k++ {
			a[r.Intn(len(a))] ^= byte(1 << uint(r.Intn(8)))
		}
	}
	return a
}

// garbleAll alters the answers of some servers, or of all in the same way.
func (x *Ctx) garbleAll(honest [][]byte, others [][]byte) ([][]byte, string) {
	ans := make([][]byte, len(honest))
	same := x.Choice("gsame", 3) == 2
	g := x.someGarbling()
	what := ""
	liar := x.Choice("liar", len(honest))
	for i, a := range honest {
		switch {
		case same:
		case i == liar:
			if g.how == 0 {
				g.how = 8
			}
		case x.Choice("morelies", 3) == 2:
			g = x.someGarbling()
		default:
			ans[i] = append([]byte{}, a...)
			continue
		}
		ans[i] = g.apply(a, others)
		what += fmt.Sprintf(" server %d %s (%d of %d bytes)", i, garbleNames[g.how], len(ans[i]), len(a))
		x.Cover("how=%s", garbleNames[g.how])
		x.Count("fault:garbled-answer")
	}
	if what == "" {
		what = " none"
	}
	return ans, what
}

// bounded runs a reconstruction and judges how it ends.
func (x *Ctx) bounded(n *rt.Node, who, what string, size int, f func()) {
	x.Tracef("%s:%s", who, what)
	old := x.MaxAlloc
	x.MaxAlloc = int64(16*size + 1<<16)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	r := n.Call(time.Hour, f)
	runtime.ReadMemStats(&m1)
	x.MaxAlloc = old
	x.Check(r.OK(), "dies", "%s, answers:%s: %s\n%s", who, what, r, r.Stack)
	used := m1.TotalAlloc - m0.TotalAlloc
	limit := uint64(64<<20) + 2000*uint64(size)
	x.Check(used < limit, "memory", "%s, answers:%s: more than %d MB allocated for %d bytes", who, what, limit>>20, size)
}

// useBlock does what the clients do with a reconstructed block.
func (x *Ctx) useBlock(n *rt.Node, b []byte, mail string) {
	x.bounded(n, "recovering a key", fmt.Sprintf(" a block of %d bytes", len(b)), 100*len(b), func() {
		e, err := pgp.RecoverKeyFromBlock(database.UnPadBlock(append([]byte{}, b...)), mail)
		if err == nil {
			pgp.ArmorKey(e)
		}
	})
}

// strangeAnswers gives honest answers of other schemes.
func (x *Ctx) strangeAnswers() [][]byte {
	if x.Choice("strange", 3) > 0 {
		return nil
	}
	var out [][]byte
	for _, s := range x.someShared() {
		q := s.query()
		var a []byte
		var err error
		s.node.Call(time.Hour, func() { a, err = s.answer(q) })
		if err == nil {
			out = append(out, a)
		}
	}
	return out
}

// c17lib: each client of the library.
func c17lib(x *Ctx) {
	others := x.strangeAnswers()
	rounds := 1 + x.Choice("rounds", 4)
	switch x.Choice("client", 4) {
	case 0:
		p := x.makePointDB(false)
		k := x.Pick("servers", 2, 3, 5)
		servers := x.pointServers(p, k, "server")
		info := p.db.Info
		cn := x.NewNode("client").Light()
		var cl *client.PIR
		cn.Call(time.Hour, func() { cl = client.NewPIR(pointRnd(x.Choice("rnd", 2)), &info) })
		who := "point client " + p.kind
		x.Cover("%s k=%d", who, k)
		for q := 0; q < rounds; q++ {
			pos := x.pickPos(len(p.want), info.NumColumns)
			var qs [][]byte
			var err error
			r := cn.Call(time.Hour, func() { qs, err = cl.QueryBytes(be4(pos), k) })
			x.Check(r.OK() && err == nil, "query", "%s: %s %v", who, r, err)
			honest := x.Honest(servers, x.Ask(servers, qs, LinkCfg{}))
			others = append(others, honest[0])
			var ans [][]byte
			what := ""
			if x.Choice("crafted", 3) == 2 && honest[0] != nil {
				// a block of the liar's choice comes out of the sum
				ans = cloneAll(honest)
				b, how := x.someBlock(p, pos)
				what = " block " + how
				row := pos / info.NumColumns
				l := x.Choice("liar", k)
				for i := 0; i < info.BlockSize; i++ {
					var sum byte
					for s := range ans {
						if s != l {
							sum ^= ans[s][row*info.BlockSize+i]
						}
					}
					ans[l][row*info.BlockSize+i] = sum ^ b[i]
				}
				x.Count("fault:crafted-block")
				x.Cover("crafted %s", how)
			} else {
				ans, what = x.garbleAll(honest, others)
			}
			var v interface{}
			x.bounded(cn, who, what, total(ans)+k*info.BlockSize*info.NumRows, func() { v, err = cl.ReconstructBytes(x.shuffle("order", ans)) })
			if b, ok := v.([]byte); ok && err == nil {
				mail := "alice@epfl.ch"
				if len(p.keys) > 0 {
					mail = p.keys[x.Choice("mail", len(p.keys))].ID
				}
				x.useBlock(cn, b, mail)
			}
		}
	case 1, 2:
		auth := x.Choice("auth", 2) == 1
		w := x.makePredWorld(auth)
		cn := x.NewNode("client").Light()
		cl := x.newPredClient(cn, w, x.Choice("rnd", 2))
		who := fmt.Sprintf("predicate client (authenticated %v)", auth)
		x.Cover("%s", who)
		for q := 0; q < rounds; q++ {
			p := x.somePred(w.ks, x.Choice("pred", nPreds))
			qs := x.predQuery(cn, cl, p)
			honest := x.Honest(w.servers, x.Ask(w.servers, qs, LinkCfg{}))
			others = append(others, honest[0])
			ans, what := x.garbleAll(honest, others)
			x.bounded(cn, who, what, total(ans)+1000, func() { cl.ReconstructBytes(ans) })
		}
	case 3:
		kind := x.Choice("single", 4)
		w := x.makeSingle(kind, false)
		cl := x.ssNewClient(w, "client")
		who := w.kind + " client"
		x.Cover("%s", who)
		for q := 0; q < rounds; q++ {
			pos := x.ssPos(w)
			var qb []byte
			var err error
			r := cl.node.Call(time.Hour, func() { qb, err = cl.query(pos) })
			x.Check(r.OK() && err == nil, "query", "%s query: %s %v", w.kind, r, err)
			honest := x.Honest([]*Peer{w.server}, x.Ask([]*Peer{w.server}, [][]byte{qb}, LinkCfg{}))
			others = append(others, honest[0])
			g := x.someGarbling()
			var ans []byte
			if kind == ssDH && x.Choice("element", 3) == 2 {
				ans = x.garbleElements(w, honest[0])
			} else {
				ans = g.apply(honest[0], others)
			}
			x.Count("fault:garbled-answer")
			x.Cover("how=%s", garbleNames[g.how])
			what := fmt.Sprintf(" %s (%d of %d bytes)", garbleNames[g.how], len(ans), len(honest[0]))
			x.bounded(cl.node, who, what, len(ans)+len(w.want)*8+len(w.fix()), func() { cl.recon(ans) })
		}
	}
	x.Nontrivial()
}

func total(a [][]byte) int {
	n := 0
	for _, b := range a {
		n += len(b)
	}
	return n
}

// garbleElements replaces group elements of a DH answer.
func (x *Ctx) garbleElements(w *ssWorld, a []byte) []byte {
	a = append([]byte{}, a...)
	r := x.RandFor("elements")
	n := w.elem
	if n <= 0 || len(a) < n {
		return a
	}
	for k := 0; k <= r.Intn(3); k++ {
		at := r.Intn(len(a)/n) * n
		switch r.Intn(7) {
		case 0: // the neutral element or nothing
			for i := 0; i < n; i++ {
				a[at+i] = 0
			}
		case 1:
			copy(a[at:], randBytes(r, n))
		case 2:
			a[at] = byte(r.Intn(256))
		case 3:
			for i := 1; i < n; i++ {
				a[at+i] = 0xff
			}
		case 4:
			a[at+n-1] ^= byte(1 << uint(r.Intn(8)))
		case 5: // another element
			o := r.Intn(len(a)/n) * n
			copy(a[at:at+n], append([]byte{}, a[o:o+n]...))
		case 6:
			a[at] ^= 1
		}
	}
	return a
}

// someBlock makes a block whose inner structure is odd.
func (x *Ctx) someBlock(p *pointDB, pos int) ([]byte, string) {
	n := p.db.Info.BlockSize
	r := x.RandFor("block")
	b := make([]byte, n)
	how := x.Choice("block", 8)
	switch how {
	case 0:
		return b, "zero"
	case 1:
		return randBytes(r, n), "random"
	case 2: // end mark first, or misplaced
		b[r.Intn(n)] = 0x80
		return b, "end mark alone"
	case 3:
		for i := range b {
			b[i] = 0xff
		}
		return b, "ones"
	case 4, 5: // a proof with odd counts at its proper place, or elsewhere
		copy(b, randBytes(r, n))
		pl := p.db.Info.ProofLen
		at := n - pl - 1
		if at < 0 || how == 5 {
			at = r.Intn(n)
		}
		if at >= 1 {
			b[n-1] = 0x80
		}
		nums := []uint32{0, 1, 2, 0xffffffff, 0x7fffffff, 1 << 26, 1 << 31, uint32(pl), uint32(pos)}
		for i := 0; i+4 <= len(b)-at && i < 12; i += 4 {
			if r.Intn(3) > 0 {
				v := nums[r.Intn(len(nums))]
				if r.Intn(2) == 0 {
					binary.LittleEndian.PutUint32(b[at+i:], v)
				} else {
					binary.BigEndian.PutUint32(b[at+i:], v)
				}
			}
		}
		return b, "odd proof"
	case 6: // key material with a torn or odd packet
		all := x.someFixtures(3)
		var m []byte
		for _, f := range all {
			m = append(m, f.Raw...)
		}
		c := copy(b, m)
		for k := 0; k <= r.Intn(4) && c > 0; k++ {
			b[r.Intn(c)] ^= byte(1 << uint(r.Intn(8)))
		}
		if c < n {
			b[c] = 0x80
		}
		return b, "damaged keys"
	}
	// openpgp headers with odd lengths
	heads := [][]byte{{0x99, 0xff, 0xff}, {0xc6, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xc6, 0xe1, 0}, {0x9a, 0xff, 0xff, 0xff, 0xff}, {0xcd, 0x00}, {0xcd, 0xfe}, {0xd1, 0xff, 0x7f, 0xff, 0xff, 0xff}, {0xc8, 0x05, 1, 1, 1, 1, 1}, {0x9b}}
	at := 0
	for at < n {
		h := heads[r.Intn(len(heads))]
		at += copy(b[at:], h)
		k := r.Intn(30)
		if at < n {
			at += copy(b[at:], randBytes(r, k))
		}
	}
	return b, "odd packets"
}

// c17block: what key retrieval does with any block.
func c17block(x *Ctx) {
	n := x.Pick("blocksize", 300, 0, 1, 2, 16, 1000, 9000, 30000)
	if n == 0 {
		n = 1
	}
	p := &pointDB{db: &database.Bytes{Info: database.Info{BlockSize: n, NumRows: 1, NumColumns: 4, Merkle: &database.Merkle{}}}}
	cn := x.NewNode("client").Light()
	for i := 0; i <= x.Choice("blocks", 6); i++ {
		b, how := x.someBlock(p, 0)
		if x.Choice("shorter", 4) == 3 {
			b = b[:x.Choice("len", len(b)+1)]
		}
		x.Cover("%s n=%d", how, n)
		x.Count("fault:odd-block")
		mail := fixtures[x.Choice("whose", len(fixtures))].Email
		x.useBlock(cn, b, mail)
		// and without the end mark removed
		x.bounded(cn, "recovering a key", " a raw block "+how, 100*len(b), func() {
			var e *openpgp.Entity
			var err error
			e, err = pgp.RecoverKeyFromBlock(b, mail)
			if err == nil {
				pgp.ArmorKey(e)
			}
		})
	}
	x.Nontrivial()
}

// garbleWire makes some servers of a deployment answer garbage.
func (x *Ctx) garbleWire(ds ...*deployment) {
	all := map[*rt.Node]bool{}
	every := x.Choice("everyone", 3) == 2
	for _, d := range ds {
		l := x.Choice("liar", d.k)
		for i, s := range d.srv {
			if every || i == l {
				all[s] = true
			}
		}
	}
	// the liars agree at times, so that what they say adds up
	agreed := x.Choice("agree", 2) == 1
	g := x.someGarbling()
	var old [][]byte
	x.Net().Lie = func(from, to *rt.Node, method string, reply []byte, err error) ([]byte, error) {
		if !all[to] || method != methodQuery || err != nil {
			return reply, err
		}
		var r proto.QueryResponse
		if gproto.Unmarshal(reply, &r) != nil {
			return reply, err
		}
		if !agreed {
			g = x.someGarbling()
		}
		orig := r.Answer
		r.Answer = g.apply(r.Answer, old)
		if len(old) < 6 {
			old = append(old, orig)
		}
		x.Count("fault:garbled-answer")
		x.Cover("how=%s", garbleNames[g.how])
		b, _ := gproto.Marshal(&r)
		return b, nil
	}
}

// c17prog: the client programs, with servers that answer garbage.
func c17prog(x *Ctx) {
	x.setDate()
	front := x.Choice("frontend", 4) // 0,1 command line, 2 web, 3 interactive
	x.Cover("front=%d", front)
	if front <= 1 {
		sc := schemes[x.Choice("scheme", 4)]
		k := 2
		if strings.HasPrefix(sc, "point") {
			k = x.Pick("servers", 2, 3)
		}
		d := x.prepare(sc, x.someAddrs(k, false), x.someFixtures(x.Pick("nkeys", 12, 20, 40)), x.Pick("nfiles", 1, 2))
		d.up()
		x.garbleWire(d)
		x.Cover("%s", sc)
		for r := 0; r < x.Pick("rounds", 1, 2); r++ {
			j := d.someJob().forCLI()
			c := d.cli(fmt.Sprintf("client%d", r), j)
			x.Check(c.n.WaitExit(6*time.Hour), "client-hangs", "the command-line client for %s has not ended", j.what)
			x.Check(!c.n.Crashed, "client-crash", "the command-line client for %s crashed: %s\n%s", j.what, c.n.CrashMsg, c.n.CrashStack)
		}
		x.Nontrivial()
		return
	}
	w := x.webServers()
	x.garbleWire(w.pt, w.cx)
	if front == 2 {
		w.startFront()
		for r := 0; r <= x.Choice("visits", 3); r++ {
			var res rt.HTTPResult
			switch x.Choice("page", 4) {
			case 0, 1:
				res = w.post("/retrieve", url.Values{"email": {w.pt.someJob().mail}}, 4*time.Hour)
			case 2:
				res = w.post("/count/email", url.Values{"position": {x.PickS("begend", "begin", "end")}, "text": {x.PickS("text", "a", "org", "alice")}}, 4*time.Hour)
			case 3:
				res = w.post("/count/algo", url.Values{"algo": {x.PickS("algo", "RSA", "DSA")}}, 4*time.Hour)
			}
			x.Check(res.Status != 0 || x.stalled(), "no-page", "the front end gives no page: %v", res.Err)
			w.alive("garbled answers")
			x.Check(x.Sim.Counters["http-handler-panic"] == 0, "front-panics", "the front end panics: %s", lastPart(w.front.Err.String()))
		}
	} else {
		s := w.session("inter")
		for i := 0; i <= x.Choice("jobs", 2); i++ {
			if x.Choice("ijob", 2) == 0 {
				s.lookup(w.pt.someJob())
			} else {
				s.count(x)
			}
		}
		s.start()
		x.Check(s.n.WaitExit(24*time.Hour), "client-hangs", "the interactive client has not ended after a day")
		x.Check(!s.n.Crashed, "client-crash", "the interactive client crashed: %s\n%s", s.n.CrashMsg, s.n.CrashStack)
	}
	x.Nontrivial()
}

func init() {
	register(&Property{ID: "C17", Rule: "one run = one client (any scheme, or a client program) and 1-5 sets of answers of which some or all are garbled in one of 17 ways, or carry a crafted block; distinct by the hash of the run's event log",
		Real:   "lib/client (all clients), lib/merkle, lib/matrix, lib/pgp, lib/database, cmd/grpc client, web and interactive mains",
		Stub:   "transport, clocks, randomness, scheduler",
		Assume: []string{"the number of answers is the number of servers asked", "the database parameters are those of an honest server"},
		Scenarios: []Scenario{
			{Name: "library", Weight: 6, Steps: 100_000_000, Run: c17lib},
			{Name: "block", Weight: 1, Steps: 100_000_000, Run: c17block},
			{Name: "programs", Weight: 2, Run: c17prog},
		}})
}
