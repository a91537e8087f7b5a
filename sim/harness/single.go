package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zzsim/rt"
)

// ssClient is a client of a single-server scheme.
type ssClient struct {
	node  *rt.Node
	query func(index int) ([]byte, error)
	recon func([]byte) (interface{}, error)
	rnd   *calmReader
}

// ssWorld is a single-server database and its server.
type ssWorld struct {
	kind       string
	rows, cols int
	want       []byte
	server     *Peer
	newClient  func(node *rt.Node) *ssClient
	answer     func(q []byte) ([]byte, error)
	tecc       int
	group      group.Group
	elem       int
	fix        func() []byte // what must not change
	other      func(pos int) func(q []byte) ([]byte, error)
	what       string
}

// calmReader is the client's randomness: words that read as a tiny multiplier
// are avoided, since the 32-bit lattice scheme is wrong with probability about
// 4B/2^32 by construction (when its multiplier falls in the noise range), and
// single-word reads can be made tiny on purpose, which makes one repetition of
// the amplified scheme fail.
type calmReader struct {
	r     *rand.Rand
	tiny  map[int]uint32 // by number of the single-word read
	reads int
	calm  bool
}

func (c *calmReader) Read(p []byte) (int, error) {
	c.r.Read(p)
	if c.calm {
		for i := 3; i < len(p); i += 4 {
			if p[i] == 0 || p[i] == 0xff {
				p[i] = 0x5a
			}
		}
	}
	if len(p) == 4 && c.tiny != nil {
		if v, ok := c.tiny[c.reads]; ok {
			binary.LittleEndian.PutUint32(p, v)
		}
		c.reads++
	}
	return len(p), nil
}

// shapedReader gives database content of a drawn density.
type shapedReader struct {
	r    *rand.Rand
	mode int
}

func (d *shapedReader) Read(p []byte) (int, error) {
	for i := range p {
		switch d.mode {
		case 0:
			p[i] = byte(d.r.Intn(256))
		case 1:
			p[i] = 0
		case 2:
			p[i] = 0xff
		case 3:
			p[i] = byte(1<<d.r.Intn(8)) & byte(d.r.Intn(256))
		case 4: // zero almost everywhere
			p[i] = 0
			if d.r.Intn(40) == 0 {
				p[i] = byte(d.r.Intn(256)) | 1
			}
		}
	}
	return len(p), nil
}

func (x *Ctx) ssShape() (int, int) {
	dims := []int{3, 1, 2, 4, 5, 7, 8, 9, 13, 16, 20, 32}
	if x.Choice("wide", 30) == 29 {
		more := []int{33, 64, 65, 100, 128, 129, 256, 257, 300, 1000}
		few, many := dims[x.Choice("rows", len(dims))], more[x.Choice("cols", len(more))]
		for few*many > 4000 {
			few = 1 + few/2
		}
		if x.Prop != "C06" && x.Choice("tall", 3) == 2 {
			// the 32-bit scheme errs with a probability that grows with the rows
			return many, few
		}
		return few, many
	}
	return dims[x.Choice("rows", len(dims))], dims[x.Choice("cols", len(dims))]
}

const (
	ssLWE = iota
	ssAmplify
	ssLWE128
	ssDH
)

var ssNames = []string{"lwe", "amplify", "lwe128", "dh"}

// notConstant is that elements drawn from a random source differ.
func (x *Ctx) notConstant(w *ssWorld, mode int) {
	n := 0
	for _, b := range w.want {
		n += int(b)
	}
	x.Check(mode != 0 || len(w.want) < 64 || n != 0 && n != len(w.want), "content", "all %d elements of a database drawn at random are equal", len(w.want))
}

func (x *Ctx) makeSingle(kind int, large bool) *ssWorld {
	w := &ssWorld{kind: ssNames[kind]}
	nd := x.libNode("server", true)
	nd.NCPU = x.Pick("ncpu", 2, 1, 3, 5, 8, 12, 64, 100)
	seed := int64(x.RandFor("content").Uint64() >> 1)
	mode := x.Pick("density", 0, 0, 1, 2, 3, 4)
	src := func() io.Reader { return &shapedReader{r: rand.New(rand.NewSource(seed)), mode: mode} }
	rnd := func() *calmReader {
		return &calmReader{r: rand.New(rand.NewSource(int64(x.RandFor("clientrnd").Uint64() >> 1))), calm: kind == ssLWE || kind == ssAmplify}
	}
	build := func(f func()) {
		r := nd.Call(time.Hour, f)
		x.Check(r.OK(), "build", "creating a %s database: %s\n%s", w.kind, r, r.Stack)
	}
	switch kind {
	case ssLWE, ssAmplify:
		var db *database.LWE
		byLen := x.Choice("bylen", 3) == 2
		w.rows, w.cols = x.ssShape()
		n := 1 + x.Choice("dblen", 200)
		build(func() {
			if byLen {
				db = database.CreateRandomBinaryLWEWithLength(src(), n)
			} else {
				db = database.CreateRandomBinaryLWE(src(), w.rows, w.cols)
			}
		})
		if byLen {
			x.Check(db.NumRows*db.NumColumns >= n, "shape", "database of %d elements has %dx%d positions", n, db.NumRows, db.NumColumns)
			w.rows, w.cols = db.NumRows, db.NumColumns
		}
		x.Check(db.NumRows == w.rows && db.NumColumns == w.cols, "shape", "asked for %dx%d, got %dx%d", w.rows, w.cols, db.NumRows, db.NumColumns)
		for i := 0; i < w.rows; i++ {
			for j := 0; j < w.cols; j++ {
				w.want = append(w.want, db.Matrix.Get(i, j))
			}
		}
		x.notConstant(w, mode)
		w.fix = func() []byte {
			return append(matrix.MatrixToBytes(db.Info.DigestLWE), w.want...)
		}
		mkAnswer := func(db *database.LWE) func([]byte) ([]byte, error) {
			if kind == ssLWE {
				return server.NewLWE(db).AnswerBytes
			}
			return server.NewAmplify(db).AnswerBytes
		}
		build(func() { w.answer = mkAnswer(db) })
		w.other = func(pos int) func([]byte) ([]byte, error) {
			var f func([]byte) ([]byte, error)
			build(func() {
				db2 := &database.LWE{Matrix: matrix.NewBytes(w.rows, w.cols), Info: db.Info}
				for i, b := range w.want {
					db2.Matrix.SetData(i, b)
				}
				for i, b := range x.changeRows(w, pos) {
					db2.Matrix.SetData(i, b)
				}
				f = mkAnswer(db2)
			})
			return f
		}
		params := func() *utils.ParamsLWE { return utils.ParamsWithDatabaseSize(w.rows, w.cols) }
		w.tecc = x.Pick("tecc", 1, 2, 0, 3, 5)
		w.newClient = func(cn *rt.Node) *ssClient {
			c := &ssClient{node: cn, rnd: rnd()}
			info := db.Info
			if kind == ssLWE {
				l := client.NewLWE(c.rnd, &info, params())
				c.query = l.QueryBytes
				c.recon = func(a []byte) (interface{}, error) { return l.ReconstructBytes(a) }
			} else {
				l := client.NewAmplify(c.rnd, &info, params(), w.tecc)
				c.query = l.QueryBytes
				c.recon = func(a []byte) (interface{}, error) { return l.ReconstructBytes(a) }
			}
			return c
		}
	case ssLWE128:
		var db *database.LWE128
		w.rows, w.cols = x.ssShape()
		byLen := x.Choice("bylen", 3) == 2
		n := 1 + x.Choice("dblen", 100)
		build(func() {
			if byLen {
				db = database.CreateRandomBinaryLWEWithLength128(src(), n)
			} else {
				db = database.CreateRandomBinaryLWE128(src(), w.rows, w.cols)
			}
		})
		if byLen {
			x.Check(db.NumRows*db.NumColumns >= n, "shape", "database of %d elements has %dx%d positions", n, db.NumRows, db.NumColumns)
			w.rows, w.cols = db.NumRows, db.NumColumns
		}
		for i := 0; i < w.rows; i++ {
			for j := 0; j < w.cols; j++ {
				w.want = append(w.want, db.Matrix.Get(i, j))
			}
		}
		x.notConstant(w, mode)
		w.fix = func() []byte {
			return append(matrix.Matrix128ToBytes(db.Info.DigestLWE128), w.want...)
		}
		build(func() { w.answer = server.NewLWE128(db).AnswerBytes })
		w.other = func(pos int) func([]byte) ([]byte, error) {
			var f func([]byte) ([]byte, error)
			build(func() {
				db2 := &database.LWE128{Matrix: matrix.NewBytes(w.rows, w.cols), Info: db.Info}
				for i, b := range x.changeRows(w, pos) {
					db2.Matrix.SetData(i, b)
				}
				f = server.NewLWE128(db2).AnswerBytes
			})
			return f
		}
		w.newClient = func(cn *rt.Node) *ssClient {
			c := &ssClient{node: cn, rnd: rnd()}
			info := db.Info
			l := client.NewLWE128(c.rnd, &info, utils.ParamsWithDatabaseSize128(w.rows, w.cols))
			c.query = l.QueryBytes
			c.recon = func(a []byte) (interface{}, error) { return l.ReconstructBytes(a) }
			return c
		}
	case ssDH:
		var db *database.Elliptic
		gs := []group.Group{group.P256, group.Ristretto255, group.P384, group.P521}
		g := gs[x.Pick("group", 0, 0, 1, 0, 2, 3)]
		n := x.Pick("dblen", 1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 30, 50, 64, 65, 100)
		sq := x.Choice("rebalanced", 2) == 1
		if large {
			n, sq, g = 1024*1024+1+x.Choice("more", 3000), true, group.P256
			mode = 1
			src = func() io.Reader { return &sparseReader{r: rand.New(rand.NewSource(seed))} }
			nd.NCPU = x.Pick("ncpularge", 8, 100, 64, 7, 1, 33, 200)
		}
		build(func() { db = database.CreateRandomEllipticWithDigest(src(), n, g, sq) })
		w.group, w.elem = g, db.ElementSize
		w.rows, w.cols = db.NumRows, db.NumColumns
		x.Check(w.rows*w.cols >= n, "shape", "database of %d elements has %dx%d positions", n, w.rows, w.cols)
		w.want = append([]byte{}, db.Entries...)
		w.what = fmt.Sprintf("group %v processors %d", g, nd.NCPU)
		w.fix = func() []byte {
			return append(append(append([]byte{}, db.Digest...), db.SubDigests...), db.Entries...)
		}
		build(func() { w.answer = server.NewDH(db).AnswerBytes })
		w.other = func(pos int) func([]byte) ([]byte, error) {
			var f func([]byte) ([]byte, error)
			build(func() {
				db2 := &database.Elliptic{Entries: x.changeRows(w, pos), Info: db.Info}
				f = server.NewDH(db2).AnswerBytes
			})
			return f
		}
		w.newClient = func(cn *rt.Node) *ssClient {
			c := &ssClient{node: cn, rnd: rnd()}
			info := db.Info
			au := *db.Info.Auth
			info.Auth = &au
			if x.Prop == "C06" && x.Chance("baddigest", 8) {
				x.dhBadDigest(cn, info)
			}
			l := client.NewDH(c.rnd, &info)
			c.query = l.QueryBytes
			c.recon = l.ReconstructBytes
			return c
		}
	}
	w.server = &Peer{Node: nd, Answer: w.answer}
	if w.what == "" {
		w.what = fmt.Sprintf("repetitions threshold %d", w.tecc)
	}
	return w
}

// sparseReader is zero nearly everywhere.
type sparseReader struct{ r *rand.Rand }

func (s *sparseReader) Read(p []byte) (int, error) {
	for k := 0; k < 60; k++ {
		p[s.r.Intn(len(p))] = 1
	}
	if s.r.Intn(2) == 0 {
		p[len(p)-1] = 1
	}
	return len(p), nil
}

// changeRows returns the content with some elements flipped, one of them in
// the row (or column) that answers for pos.
func (x *Ctx) changeRows(w *ssWorld, pos int) []byte {
	c := append([]byte{}, w.want...)
	switch x.Choice("change", 4) {
	case 0:
		c[pos] ^= 1
	case 1:
		c[(pos/w.cols)*w.cols+x.Choice("changecol", w.cols)] ^= 1
	case 2:
		c[x.Choice("changerow", w.rows)*w.cols+pos%w.cols] ^= 1
	case 3:
		c[pos] ^= 1
		for k := 0; k <= x.Choice("changes", 10); k++ {
			c[x.Choice("changeat", len(c))] ^= 1
		}
	}
	return c
}

// dhBadDigest offers a client row digests that do not match the global one.
func (x *Ctx) dhBadDigest(cn *rt.Node, info database.Info) {
	au := *info.Auth
	info.Auth = &au
	au.SubDigests = append([]byte{}, au.SubDigests...)
	what := ""
	switch x.Choice("digestattack", 6) {
	case 0:
		au.SubDigests[x.Choice("digestat", len(au.SubDigests))] ^= byte(1 << x.Choice("digestbit", 8))
		what = "a bit of a row digest flipped"
	case 1:
		if info.NumRows < 2 {
			return
		}
		e := au.ElementSize
		i := x.Choice("digestrow", info.NumRows-1)
		a, b := append([]byte{}, au.SubDigests[i*e:(i+1)*e]...), append([]byte{}, au.SubDigests[(i+1)*e:(i+2)*e]...)
		if bytes.Equal(a, b) {
			return
		}
		copy(au.SubDigests[i*e:], b)
		copy(au.SubDigests[(i+1)*e:], a)
		what = "two row digests swapped"
	case 2:
		au.SubDigests = au.SubDigests[:x.Choice("digestlen", len(au.SubDigests))]
		what = "row digests truncated"
	case 3:
		au.SubDigests = append(au.SubDigests, byte(x.Choice("digestext", 256)))
		what = "row digests extended"
	case 4:
		au.Digest = append([]byte{}, au.Digest...)
		au.Digest[x.Choice("globalat", len(au.Digest))] ^= byte(1 << x.Choice("globalbit", 8))
		what = "global digest altered"
	case 5:
		au.Digest = au.Digest[:x.Choice("globallen", len(au.Digest))]
		what = "global digest truncated"
	}
	x.Count("fault:tampered-digest")
	x.Cover("digest attack")
	made := false
	r := x.Call("badclient", cn, time.Hour, func() { made = client.NewDH(cReader(x), &info) != nil })
	x.Check(!r.OK() || !made, "digest-accepted", "a client was created although %s", what)
}

func cReader(x *Ctx) io.Reader { return x.RandFor("badclient") }

func (w *ssWorld) reps() int {
	if w.kind == "amplify" {
		return 2*w.tecc + 1
	}
	return 1
}

func ssEqual(v interface{}, want byte) bool {
	switch n := v.(type) {
	case uint32:
		return n == uint32(want)
	case byte:
		return n == want
	}
	return false
}

func (x *Ctx) ssPos(w *ssWorld) int {
	switch x.Choice("poskind", 5) {
	case 0:
		return x.Choice("pos", len(w.want))
	case 1:
		return len(w.want) - 1
	case 2: // a stored one, if any
		o := x.Choice("pos1", len(w.want))
		for i := range w.want {
			if w.want[(i+o)%len(w.want)] == 1 {
				return (i + o) % len(w.want)
			}
		}
		return 0
	case 3:
		return x.Choice("posrow", w.rows)*w.cols + w.cols - 1
	}
	return 0
}

func (x *Ctx) ssNewClient(w *ssWorld, name string) *ssClient {
	cn := x.libNode(name, false)
	cn.NCPU = x.Pick("cncpu", 2, 1, 8)
	var c *ssClient
	r := cn.Call(time.Hour, func() { c = w.newClient(cn) })
	x.Check(r.OK(), "new-client", "creating a %s client: %s\n%s", w.kind, r, r.Stack)
	return c
}

func c05run(x *Ctx, kind int, large bool) {
	w := x.makeSingle(kind, large)
	link := x.drawLink()
	nc := x.Pick("clients", 1, 2, 3)
	if large {
		nc = 1
	}
	x.Cover("%s rows=%d cols=%d", w.kind, w.rows, w.cols)
	x.Nontrivial()
	before := w.fix()
	var acts []func()
	for c := 0; c < nc; c++ {
		cl := x.ssNewClient(w, fmt.Sprintf("client%d", c))
		nq := 1 + x.Choice("queries", 3)
		if large {
			nq = 1
		}
		acts = append(acts, func() {
			for q := 0; q < nq; q++ {
				pos := x.ssPos(w)
				tiny := 0
				if w.kind == "amplify" && x.Choice("failing", 2) == 1 {
					// some repetitions fail, but fewer than the threshold
					cl.rnd.tiny = map[int]uint32{}
					cl.rnd.reads = 0
					tiny = x.Choice("ntiny", w.tecc+1)
					first := x.Choice("firsttiny", w.reps())
					step := 1 + x.Choice("tinystep", 2)
					for k := 0; k < tiny; k++ {
						cl.rnd.tiny[(first+k*step)%w.reps()] = uint32(x.Choice("tiny", 5) - 2)
					}
					if tiny > 0 {
						x.Count("fault:failed-repetition")
					}
				}
				var qb []byte
				var err error
				r := cl.node.Call(time.Hour, func() { qb, err = cl.query(pos) })
				x.Check(r.OK() && err == nil, "query", "%s query for %d: %s %v\n%s", w.kind, pos, r, err, r.Stack)
				cl.rnd.tiny = nil
				ans := x.Honest([]*Peer{w.server}, x.Ask([]*Peer{w.server}, [][]byte{qb}, link))
				var res interface{}
				r = cl.node.Call(time.Hour, func() { res, err = cl.recon(ans[0]) })
				x.Check(r.OK(), "reconstruct", "%s position %d of %dx%d: %s\n%s", w.kind, pos, w.rows, w.cols, r, r.Stack)
				x.Check(err == nil, "rejected", "%s position %d of %dx%d, %s: honest answer rejected (%d failing repetitions): %v", w.kind, pos, w.rows, w.cols, w.what, tiny, err)
				x.Check(ssEqual(res, w.want[pos]), "wrong", "%s position %d of %dx%d, %s: got %v, stored %d (%d failing repetitions)", w.kind, pos, w.rows, w.cols, w.what, res, w.want[pos], tiny)
				x.Cover("%s value=%d tiny=%v", w.kind, w.want[pos], tiny > 0)
			}
		})
	}
	x.Par(acts...)
	x.Check(bytes.Equal(before, w.fix()), "db-changed", "answering queries changed the %s database or its digest", w.kind)
}

func c06run(x *Ctx, kind int) {
	w := x.makeSingle(kind, false)
	link := x.drawLink()
	x.Cover("%s rows=%d cols=%d", w.kind, w.rows, w.cols)
	var acts []func()
	for c := 0; c < x.Pick("clients", 1, 1, 2); c++ {
		acts = append(acts, func() { c06client(x, w, link) })
	}
	x.Par(acts...)
}

func c06client(x *Ctx, w *ssWorld, link LinkCfg) {
	cl := x.ssNewClient(w, "client")
	var prev []byte
	nq := 1 + x.Choice("queries", 3)
	ask := func(pos int) (q, a []byte) {
		var err error
		r := cl.node.Call(time.Hour, func() { q, err = cl.query(pos) })
		x.Check(r.OK() && err == nil, "query", "%s query for %d: %s %v", w.kind, pos, r, err)
		return q, x.Honest([]*Peer{w.server}, x.Ask([]*Peer{w.server}, [][]byte{q}, link))[0]
	}
	for q := 0; q < nq; q++ {
		pos := x.ssPos(w)
		attack, what := x.ssAttack(w, pos, prev, ask, link)
		x.Cover("%s attack=%s", w.kind, firstWords(what, 3))
		x.Count("fault:byzantine-answer")
		x.Nontrivial()
		// by construction the lattice schemes accept a random answer with
		// probability about 4B/2^32: only what happens again is a violation
		hits := 0
		tries := 1
		for try := 0; try < tries; try++ {
			qb, honest := ask(pos)
			bad := attack(qb, append([]byte{}, honest...))
			var res interface{}
			var err error
			given := append([]byte{}, bad...)
			r := cl.node.Call(time.Hour, func() { res, err = cl.recon(given) })
			x.Check(r.OK(), "crash", "%s reconstruction with %s: %s\n%s", w.kind, what, r, r.Stack)
			if err != nil {
				x.Count("rejected")
			} else if ssEqual(res, w.want[pos]) {
				x.Count("accepted-genuine")
			} else {
				hits++
				if w.kind == "lwe" || w.kind == "amplify" {
					tries = 100
				}
				if tries == 1 || hits == 2 {
					x.Check(false, "accepted-wrong", "%s position %d of %dx%d, %s: with %s the client accepted %v, stored is %d", w.kind, pos, w.rows, w.cols, w.what, what, res, w.want[pos])
				}
				x.Count("inherent-error")
			}
			x.Check(true, "accepted-wrong", "")
			prev = honest
		}
	}
}

// ssAttack draws an attack: a function of the query and the honest answer.
func (x *Ctx) ssAttack(w *ssWorld, pos int, prev []byte, ask func(int) ([]byte, []byte), link LinkCfg) (func(q, a []byte) []byte, string) {
	row, col := pos/w.cols, pos%w.cols
	seed := int64(x.RandFor("attack").Uint64() >> 1)
	rnd := func() *rand.Rand { return rand.New(rand.NewSource(seed)) }
	k := x.Choice("attack", 14)
	switch k {
	case 0:
		f := w.other(pos)
		return func(q, a []byte) []byte {
			rs := x.Honest([]*Peer{{Node: w.server.Node, Answer: f}}, x.Ask([]*Peer{{Node: w.server.Node, Answer: f}}, [][]byte{q}, link))
			return rs[0]
		}, "an answer over a database that differs"
	case 1:
		cut := x.Choice("cut", 1<<16)
		return func(q, a []byte) []byte { return a[:cut%len(a)] }, "a truncated answer"
	case 2:
		n := 1 + x.Choice("ext", 70)
		return func(q, a []byte) []byte { return append(a, randBytes(rnd(), n)...) }, "an extended answer"
	case 3:
		return func(q, a []byte) []byte {
			// the same client asked for something else before
			if prev == nil {
				return append([]byte{}, a...)
			}
			return append([]byte{}, prev...)
		}, "a replayed answer"
	case 4:
		return func(q, a []byte) []byte { return nil }, "an empty answer"
	case 5:
		n := 1 + x.Choice("nflips", 5)
		return func(q, a []byte) []byte {
			r := rnd()
			for i := 0; i < n; i++ {
				a[r.Intn(len(a))] ^= byte(1 << r.Intn(8))
			}
			return a
		}, "bit flips"
	case 6:
		return func(q, a []byte) []byte {
			h := 8
			if w.kind == "dh" {
				h = 0
			}
			if w.kind == "amplify" {
				h = 12
			}
			for i := h; i < len(a); i++ {
				a[i] = 0
			}
			return a
		}, "zeros"
	}
	if w.kind == "dh" {
		return x.dhAttack(w, k, row, col, rnd)
	}
	width := 4
	if w.kind == "lwe128" {
		width = 16
	}
	one := 8 + width*w.cols
	hdr := 8
	rep := 0
	if w.kind == "amplify" {
		hdr = 12
		rep = x.Choice("rep", w.reps())
	}
	allReps := x.Choice("allreps", 2) == 1
	at := func(r, c int) int { return hdr + r*one + c*width }
	each := func(a []byte, f func(r int)) []byte {
		if w.kind == "amplify" && allReps {
			for r := 0; r < w.reps(); r++ {
				f(r)
			}
		} else {
			f(rep)
		}
		return a
	}
	switch k {
	case 7: // add a query word to the asked column: as if one more element were set
		c := x.Choice("qword", w.rows)
		return func(q, a []byte) []byte {
			return each(a, func(r int) {
				src := hdr + r*(8+width*w.rows) + c*width
				addWord(a[at(r, col):at(r, col)+width], q[src:src+width], false)
			})
		}, "a query word added to the asked column"
	case 8:
		c := row
		return func(q, a []byte) []byte {
			return each(a, func(r int) {
				src := hdr + r*(8+width*w.rows) + c*width
				addWord(a[at(r, col):at(r, col)+width], q[src:src+width], w.want[row*w.cols+col] == 1)
			})
		}, "the element flipped homomorphically"
	case 9:
		n := x.Choice("shift", 8*width)
		neg := x.Choice("minus", 2) == 1
		return func(q, a []byte) []byte {
			return each(a, func(r int) {
				b := make([]byte, width)
				b[n/8] = 1 << uint(n%8)
				addWord(a[at(r, col):at(r, col)+width], leWord(b), neg)
			})
		}, "a constant added to the asked column"
	case 10:
		return func(q, a []byte) []byte {
			return each(a, func(r int) {
				rr := rnd()
				rr.Read(a[at(r, 0) : at(r, w.cols-1)+width])
			})
		}, "random words"
	case 11:
		o := x.Choice("othercol", w.cols)
		return func(q, a []byte) []byte {
			return each(a, func(r int) {
				t := append([]byte{}, a[at(r, o):at(r, o)+width]...)
				copy(a[at(r, o):], a[at(r, col):at(r, col)+width])
				copy(a[at(r, col):], t)
			})
		}, "two columns exchanged"
	case 12:
		d := x.Choice("dimattack", 6)
		return func(q, a []byte) []byte {
			off := hdr - 8 + rep*one
			switch d {
			case 0:
				binary.BigEndian.PutUint32(a[off:], 0)
			case 1:
				binary.BigEndian.PutUint32(a[off+4:], uint32(w.cols+1))
			case 2:
				binary.BigEndian.PutUint32(a[off:], uint32(w.cols))
				binary.BigEndian.PutUint32(a[off+4:], 1)
			case 3:
				binary.BigEndian.PutUint32(a[off+4:], 0)
			case 4:
				binary.BigEndian.PutUint32(a[0:], uint32(len(a)))
			case 5:
				binary.BigEndian.PutUint32(a[off:], 1<<31)
			}
			return a
		}, "altered dimensions"
	}
	o := x.ssPos(w)
	return func(q, a []byte) []byte {
		// an answer to another client's query
		c2 := x.ssNewClient(w, "client2")
		var q2 []byte
		c2.node.Call(time.Hour, func() { q2, _ = c2.query(o) })
		return x.Honest([]*Peer{w.server}, x.Ask([]*Peer{w.server}, [][]byte{q2}, link))[0]
	}, "the answer to another client's query"
}

// addWord adds numbers as lattice messages hold them.
func addWord(dst, src []byte, neg bool) {
	d := leWord(dst)
	addLE(d, leWord(src), neg)
	copy(dst, leWord(d))
}

func addLE(dst, src []byte, neg bool) {
	c := 0
	if neg {
		c = 1
	}
	for i := range dst {
		s := src[i]
		if neg {
			s = ^s
		}
		v := int(dst[i]) + int(s) + c
		dst[i] = byte(v)
		c = v >> 8
	}
}

// dhAttack works on group elements.
func (x *Ctx) dhAttack(w *ssWorld, k, row, col int, rnd func() *rand.Rand) (func(q, a []byte) []byte, string) {
	g, e := w.group, w.elem
	get := func(b []byte, i int) group.Element {
		el := g.NewElement()
		z := true
		for _, c := range b[i*e : (i+1)*e] {
			z = z && c == 0
		}
		if z {
			return g.Identity()
		}
		if el.UnmarshalBinary(b[i*e:(i+1)*e]) != nil {
			return g.Identity()
		}
		return el
	}
	put := func(b []byte, i int, el group.Element) {
		m, _ := el.MarshalBinaryCompress()
		for j := i * e; j < (i+1)*e; j++ {
			b[j] = 0
		}
		copy(b[i*e:(i+1)*e], m)
	}
	target := row
	if x.Choice("anotherrow", 4) == 3 {
		target = x.Choice("targetrow", w.rows)
	}
	switch k {
	case 7:
		c := x.Choice("qword", w.cols)
		return func(q, a []byte) []byte {
			el := get(a, target)
			put(a, target, g.NewElement().Add(el, get(q, c)))
			return a
		}, "a query element added to a row"
	case 8:
		return func(q, a []byte) []byte {
			el, qe := get(a, row), get(q, col)
			if w.want[row*w.cols+col] == 1 {
				qe = g.NewElement().Neg(qe)
			}
			put(a, row, g.NewElement().Add(el, qe))
			return a
		}, "the element flipped homomorphically"
	case 9:
		return func(q, a []byte) []byte {
			put(a, target, g.RandomElement(rnd()))
			return a
		}, "a random group element"
	case 10:
		return func(q, a []byte) []byte {
			put(a, target, g.NewElement().Neg(get(a, target)))
			return a
		}, "a negated row"
	case 11:
		o := x.Choice("otherrow", w.rows)
		return func(q, a []byte) []byte {
			t, u := get(a, o), get(a, row)
			put(a, o, u)
			put(a, row, t)
			return a
		}, "two rows exchanged"
	case 12:
		d := x.Choice("badpoint", 5)
		return func(q, a []byte) []byte {
			b := a[target*e : (target+1)*e]
			switch d {
			case 0:
				for i := range b {
					b[i] = 0xff
				}
			case 1:
				b[0] = 4
			case 2:
				b[0] ^= 1 // the other square root
			case 3:
				b[e-1] ^= 1
			case 4:
				b[0] = 0
			}
			return a
		}, "a malformed group element"
	}
	drop := x.Choice("droprow", w.rows)
	return func(q, a []byte) []byte {
		return append(append([]byte{}, a[:drop*e]...), a[(drop+1)*e:]...)
	}, "a row left out"
}

func init() {
	real := "client and server of LWE, LWE128, Amplify and DH; database constructors and digests; matrix (C code included), ecc, group arithmetic (circl)"
	stub := "message transport (simulated links), scheduler, processor count, randomness (seeded; client words that would land in the noise range are avoided)"
	as := []string{"at most 32 rows in the 32-bit lattice scheme: its error probability of about 4B/2^32 per query grows with the rows"}
	register(&Property{ID: "C05", Rule: "one run = one database of one scheme, 1-3 concurrent clients with 1-3 queries each; non-trivial = an element was reconstructed and compared; distinct by the hash of the run's event log",
		Real: real, Stub: stub, Assume: as,
		Scenarios: []Scenario{
			{Name: "lwe", Weight: 60, Run: func(x *Ctx) { c05run(x, ssLWE, false) }},
			{Name: "amplify", Weight: 60, Run: func(x *Ctx) { c05run(x, ssAmplify, false) }},
			{Name: "lwe128", Weight: 30, Run: func(x *Ctx) { c05run(x, ssLWE128, false) }},
			{Name: "dh", Weight: 60, Run: func(x *Ctx) { c05run(x, ssDH, false) }},
			{Name: "dh-large", Weight: 1, Steps: 1 << 31, Run: func(x *Ctx) { c05run(x, ssDH, true) }},
		}})
	register(&Property{ID: "C06", Rule: "one run = one database of one scheme, 1-3 queries with one attack each; non-trivial = a manipulated answer reached the reconstruction; distinct by the hash of the run's event log",
		Real: real, Stub: stub + "; the lying server alters answers the real server code computed", Assume: append(as, "a wrong value accepted by the 32-bit lattice scheme counts when the same attack succeeds again within 100 fresh queries"),
		Scenarios: []Scenario{
			{Name: "lwe", Weight: 3, Run: func(x *Ctx) { c06run(x, ssLWE) }},
			{Name: "amplify", Weight: 3, Run: func(x *Ctx) { c06run(x, ssAmplify) }},
			{Name: "lwe128", Weight: 2, Run: func(x *Ctx) { c06run(x, ssLWE128) }},
			{Name: "dh", Weight: 3, Run: func(x *Ctx) { c06run(x, ssDH) }},
			{Name: "tags", Weight: 1, Run: c06tags},
		}})
}
