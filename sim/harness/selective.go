package main

import (
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/zzsim/rt"
	gproto "google.golang.org/protobuf/proto"
)

// A lying server that learns whether the client accepted must learn nothing
// about what the client asked. A run fixes one way of lying, which may use what
// the liar sees but not what was asked, and compares how often clients that ask
// for different things accept.

// selTarget is something a client may ask for.
type selTarget struct {
	name string
	// ask has a client ask for it, with the fixed lie, and says whether the
	// client accepted
	ask func() bool
}

// compareTargets looks for two targets that tell themselves apart.
func (x *Ctx) compareTargets(what string, ts []selTarget, first, confirm int) {
	if len(ts) < 2 {
		return
	}
	x.Count("fault:byzantine-answer")
	x.Nontrivial()
	lo, hi := 0, 0
	acc := make([]int, len(ts))
	for rep := 0; rep < first; rep++ {
		for i := range ts {
			if ts[i].ask() {
				acc[i]++
			}
		}
	}
	for i := range ts {
		if acc[i] < acc[lo] {
			lo = i
		}
		if acc[i] > acc[hi] {
			hi = i
		}
	}
	switch {
	case acc[hi] == 0:
		x.Count("always-rejected")
	case acc[lo] == first:
		x.Count("always-accepted")
	default:
		x.Count("sometimes-accepted")
	}
	x.checks += len(ts) * first
	d := acc[hi] - acc[lo]
	if d == 0 || first > 1 && 3*d < first {
		return
	}
	// fresh queries for the two most different, so that having chosen them
	// does not matter
	x.Count("compared-closely")
	a, b := 0, 0
	for rep := 0; rep < confirm; rep++ {
		if ts[hi].ask() {
			a++
		}
		if ts[lo].ask() {
			b++
		}
		if rep == 9 && a == b {
			break
		}
	}
	n := float64(confirm)
	p := float64(a+b) / (2 * n)
	if p == 0 || p == 1 {
		return
	}
	z := float64(a-b) / math.Sqrt(2*n*p*(1-p))
	x.Check(z < 6.5, "selective-failure", "%s: a client that asks for %s accepts %d times of %d, one that asks for %s %d times: whether the client accepts tells what it asked for",
		what, ts[hi].name, a, confirm, ts[lo].name, b)
}

// selPositions draws positions to compare, the guessed one among them.
func (x *Ctx) selPositions(guess, n, rows, cols, most int) []int {
	seen := map[int]bool{}
	var ps []int
	add := func(p int) {
		if p >= 0 && p < n && !seen[p] && len(ps) < most {
			seen[p] = true
			ps = append(ps, p)
		}
	}
	row, col := guess/cols, guess%cols
	add(guess)
	for k := 0; k < 3; k++ {
		add(x.Choice("selrow", rows)*cols + col)
		add(row*cols + x.Choice("selcol", cols))
		add(x.Choice("selpos", n))
	}
	for k := 0; k < most; k++ {
		add(x.Choice("selany", n))
	}
	return ps
}

// c22point fixes a lie of the servers of an authenticated point database.
func c22point(x *Ctx) {
	p := x.makePointDB(true)
	n := len(p.want)
	db := p.db
	rows, cols, bs := db.NumRows, db.NumColumns, db.BlockSize
	if n < 2 || n*bs > 1<<17 {
		x.Cover("skipped")
		return
	}
	k := x.Pick("servers", 2, 2, 3, 4)
	nbad := 1
	if k > 2 {
		nbad = 1 + x.Choice("nbad", k-1)
	}
	good := x.Choice("honest", k)
	bad := map[int]bool{}
	for i := 1; i <= nbad; i++ {
		bad[(good+i)%k] = true
	}
	l := (good + 1) % k
	guess := x.pickPos(n, cols)
	row := guess / cols
	servers := x.pointServers(p, k, "server")
	lying := servers
	first := 1
	var lie func(q [][]byte, a [][]byte)
	what := ""
	switch a := x.Choice("attack", 13); a {
	case 0, 1:
		off := row*bs + x.Choice("flipat", bs)
		bit := byte(1 << x.Choice("flipbit", 8))
		what = fmt.Sprintf("one bit of row %d of the answer flipped", row)
		lie = func(q, a [][]byte) { a[l][off] ^= bit }
	case 2: // where a record of the row ends
		e := entryAt(db, guess)
		o := len(e) - 1
		for o > 0 && e[o] == 0 {
			o--
		}
		o += x.Pick("endoff", 0, 1, -1, 2, -2)
		if o < 0 || o >= bs {
			o = bs - 1
		}
		v := byte(x.Pick("endxor", 1, 0x80, 0x40, 0x7f, 0xff))
		what = fmt.Sprintf("the answer altered where the record of position %d ends", guess)
		lie = func(q, a [][]byte) { a[l][row*bs+o] ^= v }
	case 3, 4, 5:
		blk, w := x.craft(p, guess, x.Pick("craft", 0, 1, 2, 3, 5, 7, 8, 9))
		delta := entryAt(db, guess)
		xorInto(delta, blk)
		what = fmt.Sprintf("%s in place of position %d", w, guess)
		lie = func(q, a [][]byte) { xorInto(a[l][row*bs:(row+1)*bs], delta) }
	case 6:
		cut := x.Choice("cutat", rows*bs)
		what = "a truncated answer"
		lie = func(q, a [][]byte) { a[l] = a[l][:cut] }
	case 7, 8, 9:
		// answers over a database in which one record differs
		first = 6
		off := 0
		for i := 0; i < guess; i++ {
			off += db.BlockLengths[i]
		}
		d2 := &database.Bytes{Entries: append([]byte{}, db.Entries...), Info: db.Info}
		for f := x.Choice("changes", 3); f >= 0; f-- {
			d2.Entries[off+x.Choice("changeat", db.BlockLengths[guess])] ^= byte(1 << x.Choice("changebit", 8))
		}
		what = fmt.Sprintf("an answer over a database in which position %d differs", guess)
		lying = x.pointServers(&pointDB{db: d2}, k, "lying")
	case 10:
		first = 6
		what = fmt.Sprintf("row %d of the answer left at zero", row)
		lie = func(q, a [][]byte) {
			for i := range bad {
				xorInto(a[i][row*bs:(row+1)*bs], append([]byte{}, a[i][row*bs:(row+1)*bs]...))
			}
		}
	case 11:
		first = 6
		o := x.Choice("otherrow", rows)
		what = fmt.Sprintf("rows %d and %d of the answer exchanged", row, o)
		lie = func(q, a [][]byte) {
			for i := range bad {
				t := append([]byte{}, a[i][row*bs:(row+1)*bs]...)
				copy(a[i][row*bs:(row+1)*bs], a[i][o*bs:(o+1)*bs])
				copy(a[i][o*bs:], t)
			}
		}
	case 12:
		seed := int64(x.RandFor("rowbits").Uint64() >> 1)
		o := x.Choice("otherrow", rows)
		what = fmt.Sprintf("rows %d and %d of the answer altered", row, o)
		lie = func(q, a [][]byte) {
			a[l][row*bs+int(seed)%bs] ^= 1
			a[l][o*bs+int(seed>>20)%bs] ^= 2
		}
	}
	link := x.drawLink()
	if first > 1 {
		link = LinkCfg{}
	}
	fresh := x.Choice("fresh", 2) == 1
	rnd := x.Choice("rnd", 2)
	cn := x.libNode("client", false)
	var cl *client.PIR
	ask := func(pos int) bool {
		if cl == nil || fresh {
			info := db.Info
			cn.Call(time.Hour, func() { cl = client.NewPIR(pointRnd(rnd), &info) })
		}
		var qs [][]byte
		var err error
		r := cn.Call(time.Hour, func() { qs, err = cl.QueryBytes(be4(pos), k) })
		x.Check(r.OK() && err == nil && len(qs) == k, "query", "query for %d: %s %v", pos, r, err)
		to := append([]*Peer{}, servers...)
		for i := range bad {
			to[i] = lying[i]
		}
		ans := cloneAll(x.Honest(to, x.Ask(to, qs, link)))
		if lie != nil {
			lie(qs, ans)
		}
		r = cn.Call(time.Hour, func() { _, err = cl.ReconstructBytes(ans) })
		x.Check(r.OK(), "crash", "reconstruction with %s: %s\n%s", what, r, r.Stack)
		return err == nil
	}
	var ts []selTarget
	for _, pos := range x.selPositions(guess, n, rows, cols, 10) {
		pos := pos
		ts = append(ts, selTarget{fmt.Sprintf("position %d of %d", pos, n), func() bool { return ask(pos) }})
	}
	x.Cover("db=%s k=%d bad=%d rows>1=%v", p.kind, k, nbad, rows > 1)
	x.Cover("attack=%s", firstWords(what, 2))
	x.Tracef("%d servers, %d lying: %s", k, nbad, what)
	x.compareTargets(fmt.Sprintf("%s, %dx%d, %d servers, %d lying, with %s", p.kind, rows, cols, k, nbad, what), ts, first, 120)
}

// alike returns base and queries that look like it to a server: of the same
// kind, with texts of the same length.
func (x *Ctx) alike(base *pred, ks []attr) []*pred {
	ps := []*pred{base}
	for i := 0; i < 12 && len(ps) < 8; i++ {
		o := *base
		switch {
		case base.kind == pAlgo:
			o.text = algoNames[x.Choice("algoname", len(algoNames))]
		case base.kind == pTime:
			o.text = fmt.Sprint(x.Epoch().Year() - x.Choice("qyear", 30))
			if len(o.text) != len(base.text) {
				continue
			}
		default:
			b := []byte(base.text)
			if len(ks) > 0 && x.Chance("other", 50) {
				m := ks[x.Choice("otherof", len(ks))].email
				copy(b, m)
				if base.info.FromEnd != 0 && len(m) >= base.info.FromEnd {
					copy(b[len(b)-base.info.FromEnd:], m[len(m)-base.info.FromEnd:])
				}
			} else if len(b) > 0 {
				b[x.Choice("textat", len(b))] ^= byte(1 << x.Choice("textbit", 7))
			}
			o.text = string(b)
		}
		o.what = fmt.Sprintf("%s (compared: %q)", base.what, o.text)
		dup := false
		for _, p := range ps {
			dup = dup || p.text == o.text
		}
		if !dup {
			ps = append(ps, &o)
		}
	}
	return ps
}

// c22pred fixes a lie of one of the predicate servers.
func c22pred(x *Ctx) {
	w := x.makePredWorld(true)
	if len(w.ks) == 0 {
		w.ks = nil
	}
	badS := x.Choice("bad", 2)
	base := x.somePred(w.ks, x.Choice("pred", nPreds))
	ps := x.alike(base, w.ks)
	delta := uint32(x.Pick("delta", 1, fieldP-1, 2, 1<<16, 12345))
	at := x.Choice("deltaat", 10)
	what := ""
	servers := append([]*Peer{}, w.servers...)
	var lie func(v []uint32) []uint32
	add := func(v []uint32, i int, d uint32) {
		if i < len(v) {
			v[i] = uint32((uint64(v[i]) + uint64(d)) % fieldP)
		}
	}
	switch x.Choice("attack", 9) {
	case 0:
		what = fmt.Sprintf("%d added to element %d of the answer", delta, at)
		lie = func(v []uint32) []uint32 { add(v, at%len(v), delta); return v }
	case 1:
		what = "a tag changed"
		lie = func(v []uint32) []uint32 { add(v, len(v)/5*5-5+1+at%4, delta); return v }
	case 2:
		what = "all elements changed"
		lie = func(v []uint32) []uint32 {
			for i := range v {
				add(v, i, delta)
			}
			return v
		}
	case 3:
		what = "the negated answer"
		lie = func(v []uint32) []uint32 {
			for i := range v {
				v[i] = uint32((fieldP - uint64(v[i])%fieldP) % fieldP)
			}
			return v
		}
	case 4:
		what = "the tags of the count changed"
		lie = func(v []uint32) []uint32 {
			for i := 1; i < 5; i++ {
				add(v, i, delta*uint32(i))
			}
			return v
		}
	case 5:
		what = "an answer of zeros"
		lie = func(v []uint32) []uint32 { return make([]uint32, len(v)) }
	default:
		ks2 := append([]attr{}, w.ks...)
		switch c := x.Choice("setchange", 4); {
		case c == 0 || len(ks2) == 0:
			a := attr{email: base.text, created: calendarMatch(2019), algo: 1}
			ks2 = append(ks2, a)
			what = fmt.Sprintf("an answer over a key set with %q in addition", a.email)
		case c == 1:
			i := x.Choice("removed", len(ks2))
			what = fmt.Sprintf("an answer over a key set without %q", ks2[i].email)
			ks2 = append(ks2[:i], ks2[i+1:]...)
		case c == 2:
			i := x.Choice("changed", len(ks2))
			what = fmt.Sprintf("an answer over a key set in which the address %q differs", ks2[i].email)
			ks2[i].email = x.someMail()
		default:
			i := x.Choice("changed", len(ks2))
			what = fmt.Sprintf("an answer over a key set in which the key of %q is older", ks2[i].email)
			ks2[i].created -= int64(1+x.Choice("years", 3)) * 366 * 86400
		}
		servers[badS] = x.predServer("lying", badS, buildKeyDB(ks2, time.UTC), true, time.UTC)
	}
	cn := x.libNode("client", false)
	cl := x.newPredClient(cn, w, x.Choice("rnd", 2))
	fresh := x.Choice("fresh", 2) == 1
	// an average over no key is refused by honest servers too
	var ts []selTarget
	for _, p := range ps {
		p := p
		if _, ok := p.truth(w.ks, w.year); !ok {
			continue
		}
		ts = append(ts, selTarget{fmt.Sprintf("%q", p.text), func() bool {
			c := cl
			if fresh {
				c = x.newPredClient(cn, w, 0)
			}
			qs := x.predQuery(cn, c, p)
			ans := x.Honest(servers, x.Ask(servers, qs, LinkCfg{}))
			if lie != nil {
				ans[badS] = putU32s(lie(getU32s(ans[badS])))
			}
			var err error
			r := cn.Call(time.Hour, func() { _, err = c.ReconstructBytes(ans) })
			x.Check(r.OK(), "crash", "%s with %s: %s\n%s", p.what, what, r, r.Stack)
			return err == nil
		}})
	}
	x.Cover("pred=%d keys=%d", base.kind, min(len(w.ks), 20))
	x.Cover("attack=%s", firstWords(what, 4))
	x.Tracef("%s; server %d lies: %s", base.what, badS, what)
	x.compareTargets(fmt.Sprintf("%s over %d keys, with %s", base.what, len(w.ks), what), ts, 1, 60)
}

// c22deployed fixes a lie of a deployed server, and users ask through the
// command-line client or the front end.
func c22deployed(x *Ctx) {
	x.setDate()
	sc := x.PickS("scheme", "pointVPIR", "pointVPIR", "complexVPIR")
	web := x.Choice("front", 3) == 2
	k := 2
	if sc == "pointVPIR" && !web {
		k = x.Pick("servers", 2, 3, 4)
	}
	nf := x.Pick("nfiles", 1, 2)
	var w *webWorld
	var d *deployment
	if web {
		fx := x.someFixtures(x.Pick("nkeys", 45, 20, 70, 100))
		w = &webWorld{x: x, pt: x.prepare("pointVPIR", webPoint, fx, nf), cx: x.prepare("complexVPIR", webComplex, fx, nf)}
		w.pt.up()
		w.cx.up()
		w.startFront()
		d = w.pt
		if sc != "pointVPIR" {
			d = w.cx
		}
	} else {
		d = x.prepare(sc, x.someAddrs(k, false), x.someFixtures(x.Pick("nkeys", 45, 20, 70, 100)), nf)
		d.up()
	}
	// what may be asked for
	var js []*job
	if d.point() {
		for i := 0; i < 5; i++ {
			j := &job{d: d, mail: d.fx[x.Choice("id", len(d.fx))].Email}
			j.what = "the key of " + strconv.Quote(j.mail)
			js = append(js, j)
		}
	} else {
		kind := x.Pick("predkind", pPrefix, pSuffix, pAlgo, pTime, pEmail, pAvg)
		if web {
			kind = x.Pick("predkindweb", pPrefix, pSuffix, pAlgo, pTime)
		}
		base := x.somePred(d.attrs, kind)
		if web && base.text == "" {
			base.text = "a"
		}
		if web && kind == pPrefix {
			base.kind, base.info.FromStart = kind, len(base.text)
		}
		if web && kind == pSuffix {
			base.kind, base.info.FromEnd = kind, len(base.text)
		}
		for _, p := range x.alike(base, d.attrs) {
			j := &job{d: d, p: p, what: p.what}
			if p.text != "" && !strings.HasPrefix(p.text, "-") && !strings.Contains(p.text, "\x00") && j.defined() && len(js) < 5 {
				js = append(js, j)
			}
		}
	}
	// the lie
	liar := d.srv[x.Choice("liar", k)]
	off, by := x.Choice("lieat", 1<<20), byte(1+x.Choice("lieby", 255))
	off2 := x.Choice("lieat2", 1<<20)
	how := x.Choice("lie", 5)
	what := []string{"one byte of the answer altered", "one byte of the answer altered", "two bytes of the answer altered", "the answer cut", "the answer extended"}[how]
	x.Net().Lie = func(from, to *rt.Node, method string, reply []byte, err error) ([]byte, error) {
		var r proto.QueryResponse
		if to != liar || method != methodQuery || err != nil || gproto.Unmarshal(reply, &r) != nil || len(r.Answer) == 0 {
			return reply, err
		}
		x.Count("fault:altered-answer")
		a := append([]byte{}, r.Answer...)
		if d.point() {
			switch how {
			case 0, 1:
				a[off%len(a)] ^= by
			case 2:
				a[off%len(a)] ^= by
				a[off2%len(a)] ^= 1
			case 3:
				a = a[:off%len(a)]
			case 4:
				a = append(a, by)
			}
		} else {
			v := getU32s(a)
			switch how {
			case 0, 1:
				v[off%len(v)] = uint32((uint64(v[off%len(v)]) + uint64(by)) % fieldP)
			case 2:
				v[off%len(v)] = uint32((uint64(v[off%len(v)]) + uint64(by)) % fieldP)
				v[off2%len(v)] = uint32((uint64(v[off2%len(v)]) + 1) % fieldP)
			case 3:
				v = v[:off%len(v)]
			case 4:
				v = append(v, 1)
			}
			a = putU32s(v)
		}
		r.Answer = a
		b, _ := gproto.Marshal(&r)
		return b, nil
	}
	var ts []selTarget
	nth := 0
	for _, j := range js {
		j := j
		ts = append(ts, selTarget{j.what, func() bool {
			nth++
			if !web {
				c := d.cli(fmt.Sprintf("client%d", nth), j)
				c.finish(false)
				return c.n.ExitCode == 0
			}
			var res rt.HTTPResult
			switch {
			case j.p == nil:
				res = w.post("/retrieve", url.Values{"email": {j.mail}}, 8*time.Hour)
			case j.p.kind == pAlgo:
				res = w.post("/count/algo", url.Values{"algo": {j.p.text}}, 8*time.Hour)
			case j.p.kind == pTime:
				res = w.post("/count/timestamp", url.Values{"year": {j.p.text}}, 8*time.Hour)
			case j.p.kind == pPrefix:
				res = w.post("/count/email", url.Values{"position": {"begin"}, "text": {j.p.text}}, 8*time.Hour)
			default:
				res = w.post("/count/email", url.Values{"position": {"end"}, "text": {j.p.text}}, 8*time.Hour)
			}
			w.alive(j.what)
			return res.Err == nil && res.Status == 200
		}})
	}
	x.Cover("deployed %s k=%d web=%v %s", sc, k, web, what)
	x.compareTargets(fmt.Sprintf("%s, %d servers, %d keys, web=%v, with %s", sc, k, len(d.fx), web, what), ts, 1, 25)
}

// c22single fixes a lie of the server of a single-server scheme.
func c22single(x *Ctx, kind int) {
	w := x.makeSingle(kind, false)
	n := len(w.want)
	if n < 2 || kind == ssLWE128 && n > 200 || n > 1000 {
		x.Cover("skipped")
		return
	}
	cl := x.ssNewClient(w, "client")
	honest := func(pos int) (q, a []byte) {
		var err error
		r := cl.node.Call(time.Hour, func() { q, err = cl.query(pos) })
		x.Check(r.OK() && err == nil, "query", "%s query for %d: %s %v", w.kind, pos, r, err)
		return q, x.Honest([]*Peer{w.server}, x.Ask([]*Peer{w.server}, [][]byte{q}, LinkCfg{}))[0]
	}
	guess := x.ssPos(w)
	_, prev := honest(guess)
	attack, what := x.ssAttack(w, guess, prev, honest, LinkCfg{})
	var ts []selTarget
	most := 8
	if kind == ssLWE128 {
		most = 4
	}
	for _, pos := range x.selPositions(guess, n, w.rows, w.cols, most) {
		pos := pos
		ts = append(ts, selTarget{fmt.Sprintf("position %d of %d", pos, n), func() bool {
			q, a := honest(pos)
			bad := attack(q, append([]byte{}, a...))
			var err error
			r := cl.node.Call(time.Hour, func() { _, err = cl.recon(append([]byte{}, bad...)) })
			x.Check(r.OK(), "crash", "%s reconstruction with %s: %s\n%s", w.kind, what, r, r.Stack)
			return err == nil
		}})
	}
	x.Cover("%s rows=%d cols=%d", w.kind, w.rows, w.cols)
	x.Cover("%s attack=%s", w.kind, firstWords(what, 3))
	x.Tracef("%s: %s meant for position %d", w.kind, what, guess)
	x.compareTargets(fmt.Sprintf("%s, %dx%d, %s, with %s meant for position %d", w.kind, w.rows, w.cols, w.what, what, guess), ts, 1, 40)
}

func init() {
	register(&Property{ID: "C22", Rule: "one run = one database, one way of lying fixed in advance, and clients that ask for 2-10 different things; non-trivial = at least two targets were compared; distinct by the hash of the run's event log",
		Real:   "clients and servers of authenticated point retrieval, authenticated predicates and the four single-server schemes; database constructors, merkle, fss, matrix, group arithmetic; the deployed servers, the command-line client and the web front end",
		Stub:   "message transport (simulated links), clock, scheduler, randomness (seeded); lying servers alter answers the real server code computed, or answer over another database",
		Assume: []string{"the liar does not adapt its lie to earlier acceptances", "an average over no key, which honest servers' answers refuse too, is left out of the comparison"},
		Scenarios: []Scenario{
			{Name: "point", Weight: 5, Run: c22point},
			{Name: "predicate", Weight: 3, Run: c22pred},
			{Name: "lwe", Weight: 2, Run: func(x *Ctx) { c22single(x, ssLWE) }},
			{Name: "amplify", Weight: 2, Run: func(x *Ctx) { c22single(x, ssAmplify) }},
			{Name: "lwe128", Weight: 1, Run: func(x *Ctx) { c22single(x, ssLWE128) }},
			{Name: "deployed", Weight: 3, Run: c22deployed},
			{Name: "dh", Weight: 2, Run: func(x *Ctx) { c22single(x, ssDH) }},
		}})
}
