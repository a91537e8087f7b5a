package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"github.com/nikirill/go-crypto/openpgp"
	"sort"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/zzsim/rt"
)

const fieldP = 2147483647

// attr is what the predicates see of a key, held independently of the code.
type attr struct {
	email   string
	created int64
	algo    int
}

var zones = []*time.Location{
	time.UTC,
	time.FixedZone("P14", 14*3600),
	time.FixedZone("M12", -12*3600),
	time.FixedZone("P0530", 5*3600+1800),
	time.FixedZone("M0330", -3*3600-1800),
	time.FixedZone("P1", 3600),
	time.FixedZone("P0019", 19*60+32),
}

func (x *Ctx) zone(label string) *time.Location { return zones[x.Choice(label, len(zones))] }

// calendarMatch is the instant a creation-time query for a year stands for.
func calendarMatch(year int) int64 { return time.Date(year, 0, 0, 0, 0, 0, 0, time.UTC).Unix() }

var mailParts = []string{"a", "b", "ab", "ba", ".", "@", "x.edu", "y.edu", "edu", ".edu", "alice", "é", "\x00", "A", "0", "org", "@x", "bob"}

func (x *Ctx) someMail() string {
	var b strings.Builder
	switch x.Choice("mailkind", 8) {
	case 0:
		return "a@x.edu"
	case 1:
		return ""
	case 2, 3, 4:
		for i := x.Choice("mailparts", 6); i >= 0; i-- {
			b.WriteString(mailParts[x.Choice("mailpart", len(mailParts))])
		}
	case 5:
		b.WriteString(x.PickS("who", "alice", "bob", "a", "carol.with.a.long.name"))
		b.WriteString("@")
		b.WriteString(x.PickS("dom", "x.edu", "y.edu", "x.org", "mail.example.edu", "epfl.ch"))
	case 6:
		b.WriteString(strings.Repeat(x.PickS("longletter", "z", "\u00e9", "z", "\u6f22", "ab", "\xff"), 30+x.Choice("longmail", 40)))
		b.WriteString("@x.edu")
	case 7:
		b.Write(randBytes(x.RandFor("mailbytes"), 1+x.Choice("mailn", 20)))
	}
	return b.String()
}

var someAlgos = []int{1, 16, 17, 18, 19, 2, 3, 22, 0}

func (x *Ctx) someCreated() int64 {
	y := 1990 + x.Choice("year", x.Epoch().Year()-1990)
	if x.Chance("thisyear", 10) {
		return time.Date(x.Epoch().Year(), 1, 2, 0, 0, 0, 0, time.UTC).Unix() + int64(x.Choice("sec", 360*86400))
	}
	switch x.Choice("createdkind", 6) {
	case 0:
		return calendarMatch(y)
	case 1:
		return calendarMatch(2019) + int64(x.Choice("yearoff", 86400*31))
	case 2: // just around the New Year in some zone
		return time.Date(y, 12, 31, 23, 59, 59, 0, time.UTC).Unix() + int64(x.Choice("ny", 48)-24)*3600
	case 3:
		return calendarMatch(y) + int64(x.Choice("off", 3)-1)
	case 4:
		return time.Date(2018+x.Choice("y18", 2), 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(x.Choice("ny2", 5)-2)
	}
	return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(x.Choice("sec", 365*86400))
}

// keySet draws the attributes of a synthetic key set.
func (x *Ctx) keySet() []attr {
	n := x.Pick("nkeys", 5, 0, 1, 2, 3, 10, 20, 40, 80)
	if x.Prop == "C03" && x.Choice("manykeys", 40) == 39 {
		n = x.Pick("nmany", 255, 256, 257, 300, 1000, 1025)
	}
	var ks []attr
	pool := []string{}
	for i := 0; i < n; i++ {
		var a attr
		if len(pool) > 0 && x.Chance("again", 30) {
			a.email = pool[x.Choice("which", len(pool))]
		} else {
			a.email = x.someMail()
			pool = append(pool, a.email)
		}
		a.created = x.someCreated()
		a.algo = someAlgos[x.Choice("algo", len(someAlgos))]
		ks = append(ks, a)
	}
	return ks
}

func buildKeyDB(ks []attr, loc *time.Location) *database.DB {
	db := &database.DB{Info: database.Info{NumColumns: len(ks), Merkle: &database.Merkle{Root: []byte{0}}}}
	for _, k := range ks {
		db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
			UserId:       &packet.UserId{Id: k.email, Email: k.email},
			CreationTime: time.Unix(k.created, 0).In(loc),
			PubKeyAlgo:   packet.PublicKeyAlgorithm(k.algo),
		})
	}
	return db
}

// pred is one statistical query and its meaning.
type pred struct {
	info query.Info
	text string
	what string
	kind int
}

const (
	pEmail = iota
	pPrefix
	pSuffix
	pAlgo
	pTime
	pAnd
	pAndWhole
	pAvg
	pAvgWhole
	nPreds
)

var algoNames = []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}
var algoNums = map[string]int{"RSA": 1, "ElGamal": 16, "DSA": 17, "ECDH": 18, "ECDSA": 19}

// somePred draws a query, mostly one that some keys meet.
func (x *Ctx) somePred(ks []attr, kind int) *pred {
	p := &pred{kind: kind}
	text := "a@x.edu"
	if len(ks) > 0 && !x.Chance("miss", 15) {
		text = ks[x.Choice("textof", len(ks))].email
		and := kind == pAnd || kind == pAndWhole
		if and && x.Chance("rightyear", 40) {
			// an address that counts
			var ok []string
			for _, k := range ks {
				if time.Unix(k.created, 0).UTC().Year() == 2018 {
					ok = append(ok, k.email)
				}
			}
			if len(ok) > 0 {
				text = ok[x.Choice("rightyearof", len(ok))]
			}
		} else if x.Chance("oddtext", 30) {
			// preferably an address that is not plain
			var odd []string
			for _, k := range ks {
				if and && time.Unix(k.created, 0).UTC().Year() != 2018 {
					continue
				}
				if len(k.email) > 60 || strings.IndexFunc(k.email, func(r rune) bool { return r > 127 || r == '+' }) >= 0 {
					odd = append(odd, k.email)
				}
			}
			if len(odd) > 0 {
				text = odd[x.Choice("oddtextof", len(odd))]
			}
		}
	} else {
		text = x.someMail()
	}
	edge := -1
	if x.Chance("near", 15) && len(text) > 0 {
		b := []byte(text)
		i, bit := x.Choice("nearat", len(b)), x.Choice("nearbit", 8)
		if x.Chance("nearedge", 50) {
			// where words and blocks of bits begin and end
			i = x.Pick("nearedgeat", 0, 7, 8, 15, 16, 31, 32, 63, 64, len(b)-1, len(b)-2) % len(b)
			bit = x.Pick("nearedgebit", 0, 7, 1, 6)
			edge = max(i, 0)
		}
		b[max(i, 0)] ^= byte(1 << bit)
		text = string(b)
	}
	at := func(c string) int { return strings.Index(text, c) + 1 }
	cut := func() int {
		if len(text) == 0 {
			return 0
		}
		if edge >= 0 && x.Choice("cutatedge", 2) == 0 {
			// with the difference inside
			if kind == pPrefix {
				return edge + 1 + x.Choice("beyondedge", len(text)-edge)
			}
			return len(text) - x.Choice("beforeedge", edge+1)
		}
		// (letters of several bytes are told apart at such borders)
		sib := 20
		if strings.IndexFunc(text, func(r rune) bool { return r > 127 }) >= 0 {
			sib = 60
		}
		if x.Chance("sibling", sib) {
			// at the border of what the text shares with another address
			most := 0
			for _, k := range ks {
				n := 0
				for k.email != text && n < len(text) && n < len(k.email) {
					if kind == pPrefix && k.email[n] != text[n] || kind != pPrefix && k.email[len(k.email)-1-n] != text[len(text)-1-n] {
						break
					}
					n++
				}
				most = max(most, n)
			}
			if n := most + 1 - x.Choice("within", 2); n > 0 && n <= len(text) {
				return n
			}
		}
		if x.Chance("natural", 25) {
			// where a person would cut
			n := []int{at("@"), at("@") - 1, at(".")}[x.Choice("naturalat", 3)]
			if kind != pPrefix {
				n = len(text) - n
			}
			if n > 0 && n <= len(text) {
				return n
			}
		}
		if x.Chance("long", 30) {
			return len(text)
		}
		return 1 + x.Choice("cutlen", len(text))
	}
	switch kind {
	case pEmail:
		p.text = text
	case pPrefix:
		n := cut()
		p.info.FromStart = n
		p.text = text
		if x.Choice("exacttext", 2) == 0 {
			p.text = text[:n]
		}
		if n == 0 {
			p.kind = pEmail
		}
	case pSuffix, pAnd, pAvg:
		n := cut()
		p.info.FromEnd = n
		p.text = text
		if x.Choice("exacttext", 2) == 0 {
			p.text = text[len(text)-n:]
		}
		if n == 0 {
			p.kind = map[int]int{pSuffix: pEmail, pAnd: pAndWhole, pAvg: pAvgWhole}[kind]
		}
	case pAndWhole, pAvgWhole:
		p.text = text
	case pAlgo:
		p.info.Target = query.PubKeyAlgo
		p.text = algoNames[x.Choice("algoname", len(algoNames))]
	case pTime:
		p.info.Target = query.CreationTime
		y := x.Epoch().Year() - x.Choice("qyear", 38)
		if len(ks) > 0 && x.Chance("hityear", 70) {
			for i := range ks {
				k := ks[(i+x.Choice("yearof", len(ks)))%len(ks)]
				t := time.Unix(k.created, 0).UTC()
				if t.Month() == time.November && t.Day() == 30 {
					y = t.Year() + 1
					break
				}
			}
		}
		p.text = fmt.Sprint(y)
	}
	switch p.kind {
	case pAnd, pAndWhole:
		p.info.And = true
	case pAvg, pAvgWhole:
		p.info.And, p.info.Avg = true, true
	}
	p.what = fmt.Sprintf("%s %q from-start=%d from-end=%d", [...]string{"count e-mail", "count prefix", "count suffix", "count algorithm", "count creation year", "count year and suffix", "count year and e-mail", "average by suffix", "average by e-mail"}[p.kind], p.text, p.info.FromStart, p.info.FromEnd)
	return p
}

func (p *pred) encode() ([]byte, error) {
	info := p.info
	switch p.kind {
	case pAlgo:
		return info.ToPKAClientFSS(p.text).Encode()
	case pTime:
		return info.ToCreationTimeClientFSS(p.text).Encode()
	case pAnd, pAndWhole:
		return info.ToAndClientFSS(p.text).Encode()
	case pAvg, pAvgWhole:
		return info.ToAvgClientFSS(p.text).Encode()
	}
	return info.ToEmailClientFSS(p.text).Encode()
}

// truth is the statistic over the key set, computed from its definition.
// ok is false when there is none (an average over no key).
func (p *pred) truth(ks []attr, year int) (v uint64, ok bool) {
	mail := func(a attr) bool {
		switch {
		case p.info.FromStart != 0:
			return strings.HasPrefix(a.email, p.text[:p.info.FromStart])
		case p.info.FromEnd != 0:
			return strings.HasSuffix(a.email, p.text[len(p.text)-p.info.FromEnd:])
		}
		return a.email == p.text
	}
	var n, sum uint64
	for _, a := range ks {
		y := time.Unix(a.created, 0).UTC().Year()
		switch p.kind {
		case pEmail, pPrefix, pSuffix:
			if mail(a) {
				n++
			}
		case pAlgo:
			if a.algo == algoNums[p.text] {
				n++
			}
		case pTime:
			var qy int
			fmt.Sscan(p.text, &qy)
			if a.created == calendarMatch(qy) {
				n++
			}
		case pAnd, pAndWhole:
			if y == 2018 && mail(a) {
				n++
			}
		case pAvg, pAvgWhole:
			if mail(a) {
				n++
				sum += uint64(year - y)
			}
		}
	}
	if p.kind == pAvg || p.kind == pAvgWhole {
		if n == 0 {
			return 0, false
		}
		return sum / n, true
	}
	return n, true
}

func (p *pred) avg() bool { return p.kind == pAvg || p.kind == pAvgWhole }

type predClient interface {
	QueryBytes([]byte, int) ([][]byte, error)
	ReconstructBytes([][]byte) (interface{}, error)
}

// predWorld is two servers over one key set.
type predWorld struct {
	ks      []attr
	servers []*Peer
	auth    bool
	year    int
	info    database.Info
	real    bool
}

func (x *Ctx) predServer(name string, i int, db *database.DB, auth bool, loc *time.Location) *Peer {
	nd := x.libNode(fmt.Sprintf("%s%d", name, i), true)
	nd.Loc = loc
	nd.NCPU = x.Pick("ncpu", 1, 2, 8)
	nd.Skew = time.Duration(x.Choice("skew", 5)-2) * time.Hour
	var f func([]byte) ([]byte, error)
	r := nd.Call(time.Hour, func() {
		if auth {
			f = server.NewPredicateAPIR(db, byte(i)).AnswerBytes
		} else {
			f = server.NewPredicatePIR(db, byte(i)).AnswerBytes
		}
	})
	x.Check(r.OK(), "new-server", "creating a predicate server: %s", r)
	return &Peer{Node: nd, Answer: f}
}

// setDate draws the wall-clock date of the run, away from the New Year in any
// zone, since the age of a key is defined by the calendar year.
func (x *Ctx) setDate() {
	y := x.Pick("simyear", 2026, 2025, 2031, 2040)
	x.SetEpoch(time.Date(y, time.Month(1+x.Choice("simmonth", 12)), 3+x.Choice("simday", 24), x.Choice("simhour", 24), 0, 0, 0, time.UTC))
}

// fixAttrs are the attributes of stored keys.
func fixAttrs(keys []*Fixture) []attr {
	var as []attr
	for _, f := range keys {
		as = append(as, attr{email: primaryMail(f), created: f.Created, algo: algoNum(f.Algo)})
	}
	return as
}

func (x *Ctx) makePredWorld(auth bool) *predWorld {
	x.setDate()
	w := &predWorld{auth: auth}
	w.year = x.Epoch().Year()
	w.real = x.Choice("source", 6) == 5
	if w.real {
		n := x.Pick("nreal", 12, 1, 5, 30)
		fx := x.someFixtures(n)
		w.ks = fixAttrs(fx)
		d := rt.NewDisk()
		var kk []*Fixture
		kk = append(kk, fx...)
		paths := x.keyFiles(d, toKeys(kk), x.Pick("nfiles", 1, 2, 3))
		for i := 0; i < 2; i++ {
			nd := x.NewNode(fmt.Sprintf("loader%d", i)).Light()
			nd.Disk = d.Clone()
			nd.Loc = x.zone("zone")
			var db *database.DB
			var err error
			r := nd.Call(time.Hour, func() { db, err = database.GenerateRealKeyDB(paths) })
			x.Check(r.OK() && err == nil, "load", "loading %d keys: %s %v\n%s", n, r, err, r.Stack)
			x.Check(db.NumColumns == n && len(db.KeysInfo) == n, "load-count", "%d keys stored, database has %d (%d)", n, db.NumColumns, len(db.KeysInfo))
			w.servers = append(w.servers, x.predServer("server", i, db, auth, nd.Loc))
			w.info = db.Info
		}
	} else {
		w.ks = x.keySet()
		for i := 0; i < 2; i++ {
			loc := x.zone("zone")
			db := buildKeyDB(w.ks, loc)
			w.servers = append(w.servers, x.predServer("server", i, db, auth, loc))
			w.info = db.Info
		}
	}
	return w
}

func (x *Ctx) newPredClient(n *rt.Node, w *predWorld, rnd int) predClient {
	var c predClient
	info := w.info
	n.Call(time.Hour, func() {
		if w.auth {
			c = client.NewPredicateAPIR(pointRnd(rnd), &info)
		} else {
			c = client.NewPredicatePIR(pointRnd(rnd), &info)
		}
	})
	return c
}

func (x *Ctx) shuffle(label string, a [][]byte) [][]byte {
	o := cloneAll(a)
	for i := len(o) - 1; i > 0; i-- {
		j := i - x.Choice(label, i+1)
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// predQuery has the client issue p and checks the queries are there.
func (x *Ctx) predQuery(cn *rt.Node, cl predClient, p *pred) [][]byte {
	var qs [][]byte
	var err error
	r := cn.Call(time.Hour, func() {
		var in []byte
		in, err = p.encode()
		if err == nil {
			qs, err = cl.QueryBytes(in, 2)
		}
	})
	x.Check(r.OK() && err == nil && len(qs) == 2, "query", "%s: query generation: %s, %v, %d messages\n%s", p.what, r, err, len(qs), r.Stack)
	return qs
}

// predAccept compares a reconstruction with the truth.
func (x *Ctx) predAccept(p *pred, w *predWorld, res interface{}, err error, lie string) {
	v, ok := p.truth(w.ks, w.year)
	if err != nil {
		if lie == "" {
			x.Check(!ok, "rejected", "%s over %d keys: honest answers rejected: %v (true value %d)", p.what, len(w.ks), err, v)
		}
		x.Count("rejected")
		return
	}
	got, isnum := res.(uint32)
	x.Check(isnum && ok && uint64(got) == v, map[bool]string{true: "wrong", false: "accepted-wrong"}[lie == ""],
		"%s over %d keys (authenticated=%v): got %v, true value %d (exists: %v) %s", p.what, len(w.ks), w.auth, res, v, ok, lie)
	x.Count("accepted")
}

// c03 runs honest predicate queries.
func c03(x *Ctx) {
	auth := x.Choice("auth", 2) == 1
	w := x.makePredWorld(auth)
	link := x.drawLink()
	nc := x.Pick("clients", 1, 2, 3)
	x.Cover("auth=%v keys=%d real=%v", auth, min(len(w.ks), 20), w.real)
	x.Nontrivial()
	var acts []func()
	for c := 0; c < nc; c++ {
		cn := x.libNode(fmt.Sprintf("client%d", c), false)
		cn.Loc = x.zone("czone")
		cl := x.newPredClient(cn, w, x.Choice("rnd", 2))
		nq := 1 + x.Choice("queries", 5)
		acts = append(acts, func() {
			for q := 0; q < nq; q++ {
				p := x.somePred(w.ks, x.Choice("pred", nPreds))
				qs := x.predQuery(cn, cl, p)
				ans := x.Honest(w.servers, x.Ask(w.servers, qs, link))
				ans = x.shuffle("order", ans)
				var res interface{}
				var err error
				r := cn.Call(time.Hour, func() { res, err = cl.ReconstructBytes(ans) })
				x.Check(r.OK(), "reconstruct", "%s: %s\n%s", p.what, r, r.Stack)
				x.predAccept(p, w, res, err, "")
				v, _ := p.truth(w.ks, w.year)
				x.Cover("pred=%d hit=%v", p.kind, v > 0)
			}
		})
	}
	x.Par(acts...)
}

func getU32s(b []byte) []uint32 {
	var o []uint32
	for i := 0; i+4 <= len(b); i += 4 {
		o = append(o, binary.BigEndian.Uint32(b[i:]))
	}
	return o
}

func putU32s(v []uint32) []byte {
	var b []byte
	for _, e := range v {
		b = binary.BigEndian.AppendUint32(b, e)
	}
	return b
}

// c04 runs authenticated predicate queries with one lying server.
func c04(x *Ctx) {
	w := x.makePredWorld(true)
	link := x.drawLink()
	good := x.Choice("honest", 2)
	bad := 1 - good
	// another key set, for stale and foreign answers
	ks2 := append([]attr{}, w.ks...)
	switch x.Choice("otherset", 4) {
	case 0:
		ks2 = append(ks2, attr{email: "a@x.edu", created: calendarMatch(2019), algo: 1})
	case 1:
		if len(ks2) > 0 {
			ks2 = ks2[1:]
		}
	case 2:
		ks2 = x.keySet()
	case 3:
		for i := range ks2 {
			ks2[i].created -= 400 * 86400
			ks2[i].algo ^= 3
		}
	}
	foreign := x.predServer("foreign", bad, buildKeyDB(ks2, time.UTC), true, time.UTC)
	wrongNum := x.predServer("confused", good, buildKeyDB(w.ks, time.UTC), true, time.UTC)
	session := func() {
		cn := x.libNode("client", false)
		cl := x.newPredClient(cn, w, x.Choice("rnd", 2))
		var prevAns, prevQ [][]byte
		nq := 1 + x.Choice("queries", 4)
		x.Cover("keys=%d bad=%d", min(len(w.ks), 20), bad)
		for q := 0; q < nq; q++ {
			p := x.somePred(w.ks, x.Choice("pred", nPreds))
			qs := x.predQuery(cn, cl, p)
			honest := x.Honest(w.servers, x.Ask(w.servers, qs, link))
			ans := cloneAll(honest)
			v := getU32s(ans[bad])
			what := ""
			set := func() { ans[bad] = putU32s(v) }
			delta := func() uint32 {
				switch x.Choice("deltakind", 5) {
				case 0:
					return 1
				case 1:
					return fieldP - 1
				case 2:
					return uint32(x.Choice("delta", 100)) + 2
				case 3:
					return uint32(x.RandFor("delta").Int31n(fieldP-2)) + 1
				}
				return 1 << 16
			}
			add := func(i int, d uint32) {
				if i < len(v) {
					v[i] = uint32((uint64(v[i]) + uint64(d)) % fieldP)
				}
			}
			half := 0
			if p.avg() && x.Choice("half", 2) == 1 {
				half = 5
			}
			x.Count("fault:byzantine-answer")
			switch x.Choice("attack", 22) {
			case 0:
				what = "the count changed, tags as they were"
				add(half, delta())
			case 1: // tags adjusted by a guess of the multiplier
				d := delta()
				var g uint64
				switch x.Choice("guess", 6) {
				case 0:
					g = 1
				case 1:
					g = 2
				case 2:
					g = fieldP - 1
				case 3:
					g = uint64(x.Choice("guessed", 1<<12))
				case 4:
					g = uint64(x.RandFor("guess").Int31n(fieldP))
				case 5:
					g = uint64(v[1])
				}
				add(half, d)
				for i := 1; i < 5; i++ {
					add(half+i, uint32(uint64(d)*g%fieldP))
				}
				what = "the count changed, tags by a guessed multiplier"
			case 2:
				what = "bit flips"
				for f := 0; f <= x.Choice("nflips", 4); f++ {
					ans[bad][x.Choice("flipat", len(ans[bad]))] ^= byte(1 << x.Choice("flipbit", 8))
				}
			case 3:
				what = "one tag changed"
				add(half+1+x.Choice("tag", 4), delta())
			case 4:
				what = "truncated answer"
				ans[bad] = ans[bad][:x.Choice("cutat", len(ans[bad]))]
			case 5:
				what = "answer cut at an element"
				k := x.Choice("cutel", len(v))
				v = v[:k]
				set()
			case 6:
				what = "extended answer"
				ans[bad] = append(ans[bad], randBytes(x.RandFor("ext"), 1+x.Choice("extn", 44))...)
			case 7:
				what = "answer doubled (a count made to look like an average)"
				ans[bad] = append(append([]byte{}, ans[bad]...), ans[bad]...)
				if x.Choice("bothdoubled", 2) == 1 {
					what += " by zeros"
					ans[bad] = append(append([]byte{}, honest[bad]...), make([]byte, len(honest[bad]))...)
				}
			case 8:
				what = "count half only"
				if len(v) == 10 {
					v = v[:5]
				}
				set()
			case 9:
				what = "sum half only"
				if len(v) == 10 {
					v = v[5:]
				}
				set()
			case 10:
				what = "halves swapped"
				if len(v) == 10 {
					v = append(append([]uint32{}, v[5:]...), v[:5]...)
				}
				set()
			case 11:
				what = "replayed answer"
				if prevAns != nil {
					ans[bad] = prevAns[x.Choice("replayof", 2)]
				} else {
					ans[bad] = append([]byte{}, ans[good]...)
				}
			case 12:
				what = "all zeros"
				for i := range v {
					v[i] = 0
				}
				set()
			case 13:
				what = "the negated answer"
				for i := range v {
					v[i] = uint32((fieldP - uint64(v[i])%fieldP) % fieldP)
				}
				set()
			case 14:
				what = "a scaled answer"
				s := uint64(delta())
				for i := range v {
					v[i] = uint32(uint64(v[i]) * s % fieldP)
				}
				set()
			case 15:
				what = "values above the modulus"
				for i := range v {
					if x.Choice("above", 2) == 1 {
						v[i] += fieldP
					}
				}
				if x.Choice("plus", 2) == 1 {
					v[half%len(v)]++
				}
				set()
			case 16:
				what = "answered over another key set"
				rs := x.Honest([]*Peer{foreign}, x.Ask([]*Peer{foreign}, [][]byte{qs[bad]}, link))
				ans[bad] = rs[0]
			case 17:
				what = "answered as the other server"
				rs := x.Honest([]*Peer{wrongNum}, x.Ask([]*Peer{wrongNum}, [][]byte{qs[bad]}, link))
				ans[bad] = rs[0]
			case 18:
				what = "answered for an earlier query"
				if prevQ != nil {
					rs := x.Honest(w.servers[bad:bad+1], x.Ask(w.servers[bad:bad+1], [][]byte{prevQ[bad]}, link))
					ans[bad] = rs[0]
				} else {
					add(0, 1)
					set()
				}
			case 19:
				what = "answered for another predicate"
				p2 := x.somePred(w.ks, x.Choice("pred2", nPreds))
				cn2 := x.libNode("client2", false)
				cl2 := x.newPredClient(cn2, w, 1)
				q2 := x.predQuery(cn2, cl2, p2)
				rs := x.Honest(w.servers[bad:bad+1], x.Ask(w.servers[bad:bad+1], [][]byte{q2[bad]}, link))
				ans[bad] = rs[0]
			case 20:
				what = "random answer"
				ans[bad] = randBytes(x.RandFor("randans"), len(ans[bad]))
			case 21:
				what = "sum and count changed together"
				d := delta()
				add(0, d)
				add(5, d)
			}
			switch what {
			case "the count changed, tags as they were", "the count changed, tags by a guessed multiplier", "one tag changed", "sum and count changed together":
				set()
			}
			if x.Choice("answerorder", 3) == 2 {
				ans[0], ans[1] = ans[1], ans[0]
			}
			x.Tracef("%s; server %d lies: %s", p.what, bad, what)
			x.Cover("attack=%s avg=%v", firstWords(what, 4), p.avg())
			x.Nontrivial()
			var res interface{}
			var err error
			given := cloneAll(ans)
			r := cn.Call(time.Hour, func() { res, err = cl.ReconstructBytes(given) })
			x.Check(r.OK(), "crash", "%s with %s: %s\n%s", p.what, what, r, r.Stack)
			x.predAccept(p, w, res, err, "with a lying server: "+what)
			prevAns, prevQ = honest, qs
		}
	}
	var acts []func()
	for c := 0; c < x.Pick("clients", 1, 1, 2, 3); c++ {
		acts = append(acts, session)
	}
	x.Par(acts...)
}

// ---- helpers on fixtures ----

// primaryMail is the address of the key's primary identity as the key carries
// it; empty if that identity has none.
func primaryMail(f *Fixture) string {
	if f.of != nil {
		f = f.of
	}
	m, ok := mailOf[f]
	if !ok {
		panic("fixture")
	}
	return m
}

var mailOf = map[*Fixture]string{}

// fillMails runs before any simulation, so that no run depends on what was
// looked up before.
func fillMails() {
	for i := range fixtures {
		f := &fixtures[i]
		el, err := openpgp.ReadKeyRing(bytes.NewReader(f.Raw))
		if err != nil || len(el) != 1 {
			panic(fmt.Sprint("unreadable fixture: ", err))
		}
		mailOf[f] = el[0].PrimaryIdentity().UserId.Email
		if idOf(el[0]).String() != idOfFixture(f).String() {
			panic(fmt.Sprint("fixture identity: ", idOf(el[0]), idOfFixture(f)))
		}
	}
}

func toKeys(fs []*Fixture) []pgp.Key {
	var ks []pgp.Key
	for _, f := range fs {
		ks = append(ks, pgp.Key{ID: f.Email, Packet: f.Raw})
	}
	return ks
}

func algoNum(a string) int {
	switch {
	case strings.HasPrefix(a, "RSA"), strings.HasPrefix(a, "rsa"):
		return 1
	case strings.HasPrefix(a, "DSA"), strings.HasPrefix(a, "dsa"):
		return 17
	case strings.HasPrefix(a, "ECDSA"), strings.HasPrefix(a, "ecdsa"):
		return 19
	case strings.HasPrefix(a, "Ed"), strings.HasPrefix(a, "ed"), strings.HasPrefix(a, "EDDSA"), strings.HasPrefix(a, "eddsa"):
		return 22
	}
	return -1
}

// someFixtures draws n distinct curated keys.
func (x *Ctx) someFixtures(n int) []*Fixture {
	r := x.RandFor("fixtures")
	perm := r.Perm(len(fixtures))
	if x.Choice("gather", 3) == 2 {
		// more of one kind
		var kinds []string
		for k := range fixByKind {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		kind := kinds[r.Intn(len(kinds))]
		if x.Choice("gatherodd", 3) == 2 {
			kind = "odd-address"
		}
		sort.SliceStable(perm, func(i, j int) bool { return fixtures[perm[i]].Kind == kind && fixtures[perm[j]].Kind != kind })
		h := perm[:n/2+1]
		rest := append([]int{}, perm[n/2+1:]...)
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		perm = append(append([]int{}, h...), rest...)
	}
	seen := map[string]bool{}
	var fs []*Fixture
	for _, i := range perm {
		f := &fixtures[i]
		if f.Email == "" || f.Revoked || seen[f.Email] || len(f.Raw) > 8192 || f.Kind == "large" {
			continue
		}
		seen[f.Email] = true
		fs = append(fs, f)
		if len(fs) == n {
			break
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Email > fs[j].Email })
	return fs
}

func init() {
	real := "client.PredicatePIR/PredicateAPIR, server.PredicatePIR/PredicateAPIR, query, fss, field, database.GenerateRealKeyDB and pgp loading"
	stub := "message transport (simulated links), clock and zones, scheduler, randomness (seeded); two thirds of the key sets are synthetic KeysInfo"
	as := []string{"the servers' calendar year is the same (the age of a key depends on the server's clock): dates near a New Year are not drawn"}
	register(&Property{ID: "C03", Rule: "one run = one key set on two servers in their own zones, 1-3 concurrent clients with 1-5 queries each; non-trivial = a statistic was reconstructed and compared; distinct by the hash of the run's event log",
		Real: real, Stub: stub, Assume: as,
		Scenarios: []Scenario{{Name: "honest", Weight: 1, Run: c03}}})
	register(&Property{ID: "C04", Rule: "one run = one key set, one honest and one lying server, 1-4 queries with one attack each; non-trivial = a manipulated answer reached the reconstruction; distinct by the hash of the run's event log",
		Real: real, Stub: stub + "; the lying server alters answers the real server code computed", Assume: as,
		Scenarios: []Scenario{{Name: "lying", Weight: 1, Run: c04}}})
}
