package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zzsim/rt"
)

// pointDB is a database and what the reconstruction of each position must be.
type pointDB struct {
	build  func() *database.Bytes // rebuilds the same database
	db     *database.Bytes
	want   [][]byte
	kind   string
	merkle bool
	keys   []pgp.Key
}

// recReader is a random source whose output the harness knows.
type recReader struct {
	r   *rand.Rand
	all []byte
}

func (r *recReader) Read(p []byte) (int, error) {
	r.r.Read(p)
	r.all = append(r.all, p...)
	return len(p), nil
}

// fewReader repeats few distinct bytes, so that equal records are common.
type fewReader struct {
	r    *rand.Rand
	alph int
	all  []byte
}

func (r *fewReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.r.Intn(r.alph)) * 0x80
	}
	r.all = append(r.all, p...)
	return len(p), nil
}

var dimCols = []int{8, 1, 2, 3, 5, 7, 9, 12, 15, 16, 17, 24, 31, 33, 64, 65, 100, 127, 128, 129, 200, 257}
var dimRows = []int{1, 2, 3, 4, 5, 8}
var dimLens = []int{16, 1, 2, 3, 8, 15, 17, 31, 32, 33, 40, 60, 64, 65, 100, 129}

// putKeyFile writes a key file in the stored format with independent code.
func putKeyFile(d *rt.Disk, path string, keys []pgp.Key) {
	var b bytes.Buffer
	enc := gob.NewEncoder(&b)
	for i := range keys {
		k := keys[i]
		if err := enc.Encode(&k); err != nil {
			panic(err)
		}
	}
	d.Put(path, b.Bytes())
}

// someKeys draws n keys with distinct addresses as a curated store holds them.
func (x *Ctx) someKeys(n int) []pgp.Key {
	r := x.RandFor("keys")
	perm := r.Perm(len(fixtures))
	seen := map[string]bool{}
	var ks []pgp.Key
	for _, i := range perm {
		f := &fixtures[i]
		if f.Email == "" || f.Revoked || seen[f.Email] || len(f.Raw) > 8192 {
			continue
		}
		if f.Kind == "large" && n < 60 {
			continue
		}
		seen[f.Email] = true
		ks = append(ks, pgp.Key{ID: f.Email, Packet: f.Raw})
		if len(ks) == n {
			break
		}
	}
	return ks
}

// keyFiles spreads keys over files in /work and returns the paths.
func (x *Ctx) keyFiles(d *rt.Disk, keys []pgp.Key, n int) []string {
	var paths []string
	for i := 0; i < n; i++ {
		lo, hi := i*len(keys)/n, (i+1)*len(keys)/n
		p := fmt.Sprintf("/work/keys/sks-%02d.pgp", i)
		putKeyFile(d, p, keys[lo:hi])
		paths = append(paths, p)
	}
	return paths
}

// bucketed groups keys by bucket, largest identity first, as reference.
func bucketed(keys []pgp.Key, n int) [][]byte {
	s := append([]pgp.Key{}, keys...)
	sort.Slice(s, func(i, j int) bool { return s[i].ID > s[j].ID })
	out := make([][]byte, n)
	for _, k := range s {
		b := database.HashToIndex(k.ID, n)
		out[b] = append(out[b], k.Packet...)
	}
	return out
}

func (x *Ctx) makePointDB(mustMerkle bool) *pointDB {
	p := &pointDB{}
	kind := x.Choice("dbkind", 6)
	if mustMerkle {
		kind = x.Pick("dbkindm", 2, 2, 3, 5)
	}
	cols := dimCols[x.Choice("cols", len(dimCols))]
	rows := dimRows[x.Choice("rows", len(dimRows))]
	bl := dimLens[x.Choice("blocklen", len(dimLens))]
	if x.Choice("huge", 60) == 59 {
		cols = []int{256, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 5000, 65535, 65537, 70000}[x.Choice("hugecols", 14)]
		rows = []int{1, 2, 16, 17, 65, 257, 300}[x.Choice("hugerows", 7)]
		bl = []int{16, 1, 32, 100, 256, 257, 1000, 4097, 70000}[x.Choice("hugelen", 9)]
		for rows*cols*bl > 3<<20 || kind != 0 && kind != 1 && rows*cols > 3000 && (rows > 1 || rows*cols > 70000) {
			if bl > 4*rows && bl > cols {
				bl /= 3
			} else if rows > 1 {
				rows = 1 + rows/4
			} else if bl > 1 {
				bl /= 2
			} else {
				cols /= 2
			}
		}
	}
	seed := int64(x.RandFor("content").Uint64() >> 1)
	var known []byte
	switch kind {
	case 0:
		p.kind = "bytes"
		p.build = func() *database.Bytes {
			r := &recReader{r: rand.New(rand.NewSource(seed))}
			db := database.CreateRandomBytes(r, rows*cols*bl*8, rows, bl)
			known = r.all
			return db
		}
	case 1:
		p.kind = "variable"
		p.build = func() *database.Bytes {
			r := rand.New(rand.NewSource(seed))
			db := database.InitBytes(rows, cols, bl)
			known = nil
			for i := 0; i < rows*cols; i++ {
				n := r.Intn(bl + 1)
				if r.Intn(4) == 0 {
					n = bl
				}
				b := randBytes(r, n)
				db.BlockLengths[i] = n
				db.Entries = append(db.Entries, b...)
				known = append(known, b...)
				known = append(known, make([]byte, bl-n)...)
			}
			return db
		}
	case 2, 5:
		p.kind, p.merkle = "merkle", true
		few := kind == 5 || x.Chance("fewbytes", 25)
		if few {
			p.kind = "merkle-repeats"
		}
		if rows*cols > 400 && cols < 1000 {
			rows = 1
		}
		p.build = func() *database.Bytes {
			var r io.Reader
			if few {
				fr := &fewReader{r: rand.New(rand.NewSource(seed)), alph: 2}
				r = fr
				db := database.CreateRandomMerkle(r, rows*cols*bl*8, rows, bl)
				known = fr.all
				return db
			}
			rr := &recReader{r: rand.New(rand.NewSource(seed))}
			db := database.CreateRandomMerkle(rr, rows*cols*bl*8, rows, bl)
			known = rr.all
			return db
		}
	case 3, 4:
		p.merkle = kind == 3
		n := x.Pick("nkeys", 20, 10, 12, 31, 45, 70, 120)
		p.keys = x.someKeys(n)
		d := rt.NewDisk()
		paths := x.keyFiles(d, p.keys, x.Pick("nfiles", 1, 2, 3))
		reb := x.Choice("rebalanced", 2) == 1
		p.kind = "keys"
		if p.merkle {
			p.kind = "keys-merkle"
		}
		p.build = func() *database.Bytes {
			var db *database.Bytes
			var err error
			nd := x.NewNode("loader").Light()
			nd.Disk = d
			r := nd.Call(time.Hour, func() {
				if p.merkle {
					db, err = database.GenerateRealKeyMerkle(paths, reb)
				} else {
					db, err = database.GenerateRealKeyBytes(paths, reb)
				}
			})
			x.Check(r.OK() && err == nil, "load", "building the database failed: %s %v", r, err)
			return db
		}
	}
	var db *database.Bytes
	if kind == 3 || kind == 4 {
		db = p.build()
	} else {
		x.Must("build", func() { db = p.build() })
	}
	p.db = db
	n := db.NumRows * db.NumColumns
	x.Check(n > 0, "empty-db", "database has %d rows and %d columns", db.NumRows, db.NumColumns)
	if kind == 3 || kind == 4 {
		for _, b := range bucketed(p.keys, n) {
			w := append([]byte{}, b...)
			if len(w) > 0 { // nothing is stored, not even the end mark, where no key falls
				w = append(w, 0x80)
			}
			if !p.merkle {
				w = append(w, make([]byte, db.BlockSize-len(w))...)
			}
			p.want = append(p.want, w)
		}
	} else {
		x.Check(db.NumRows == rows && db.NumColumns == cols, "shape", "asked for %dx%d, got %dx%d", rows, cols, db.NumRows, db.NumColumns)
		for i := 0; i < n; i++ {
			p.want = append(p.want, append([]byte{}, known[i*bl:(i+1)*bl]...))
		}
	}
	return p
}

func (x *Ctx) pickPos(n, cols int) int {
	switch x.Choice("poskind", 6) {
	case 0:
		return 0
	case 1:
		return n - 1
	case 2:
		return (x.Choice("pos8", n/8+1) * 8) % n
	case 3:
		p := x.Choice("pos8b", n/8+1)*8 + 7
		return p % n
	case 4:
		return (x.Choice("posrow", n/cols+1)*cols + cols - 1) % n
	}
	return x.Choice("pos", n)
}

func be4(i int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(i))
	return b
}

func (x *Ctx) pointServers(p *pointDB, k int, name string) []*Peer {
	var ps []*Peer
	for i := 0; i < k; i++ {
		nd := x.libNode(fmt.Sprintf("%s%d", name, i), true)
		nd.NCPU = x.Pick("ncpu", 1, 2, 3, 8)
		var s *server.PIR
		db := p.db
		nc := x.Choice("coresarg", 3)
		r := nd.Call(time.Hour, func() {
			switch {
			case k == 2 && nc == 0:
				s = server.NewPIRTwo(db)
			case k == 2:
				s = server.NewPIRTwo(db, nc)
			case nc == 0:
				s = server.NewPIR(db)
			default:
				s = server.NewPIR(db, nc)
			}
		})
		x.Check(r.OK(), "new-server", "creating a server: %s", r)
		ps = append(ps, &Peer{Node: nd, Answer: s.AnswerBytes})
	}
	return ps
}

func pointRnd(i int) io.Reader {
	if i == 0 {
		return utils.RandomPRG()
	}
	return randReader
}

func sameBytes(v interface{}, want []byte) bool {
	b, ok := v.([]byte)
	return ok && bytes.Equal(b, want)
}

// c01 runs honest point retrieval.
func c01(x *Ctx) {
	p := x.makePointDB(false)
	n := len(p.want)
	k := x.Pick("servers", 2, 3, 2, 4, 5, 2, 7)
	servers := x.pointServers(p, k, "server")
	link := x.drawLink()
	nc := x.Pick("clients", 1, 2, 3)
	x.Cover("db=%s k=%d rows>1=%v", p.kind, k, p.db.NumRows > 1)
	x.Cover("cols%%8=%d", p.db.NumColumns%8)
	x.Nontrivial()
	before := append([]byte{}, p.db.Entries...)
	var acts []func()
	for c := 0; c < nc; c++ {
		c := c
		nq := 1 + x.Choice("queries", 5)
		info := p.db.Info
		var cl *client.PIR
		cn := x.libNode(fmt.Sprintf("client%d", c), false)
		rnd := x.Choice("rnd", 2)
		cn.Call(time.Hour, func() { cl = client.NewPIR(pointRnd(rnd), &info) })
		acts = append(acts, func() {
			for q := 0; q < nq; q++ {
				pos := x.pickPos(n, p.db.NumColumns)
				var qs [][]byte
				var err error
				r := cn.Call(time.Hour, func() { qs, err = cl.QueryBytes(be4(pos), k) })
				x.Check(r.OK() && err == nil && len(qs) == k, "query", "query for %d of %d with %d servers: %s, %v, %d messages", pos, n, k, r, err, len(qs))
				ans := x.shuffle("order", x.Honest(servers, x.Ask(servers, qs, link)))
				var res interface{}
				r = cn.Call(time.Hour, func() { res, err = cl.ReconstructBytes(ans) })
				x.Check(r.OK(), "reconstruct", "reconstruction of position %d (%s, %d servers): %s\n%s", pos, p.kind, k, r, r.Stack)
				x.Check(err == nil, "rejected", "position %d of %d (%s, %dx%d, %d servers): honest answers rejected: %v", pos, n, p.kind, p.db.NumRows, p.db.NumColumns, k, err)
				x.Check(sameBytes(res, p.want[pos]), "wrong", "position %d of %d (%s, %dx%d, %d servers): got %s, stored %s", pos, n, p.kind, p.db.NumRows, p.db.NumColumns, k, show(res), short(p.want[pos]))
			}
		})
	}
	x.Par(acts...)
	x.Check(bytes.Equal(before, p.db.Entries), "db-changed", "answering queries changed the database")
}

func show(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return short(b)
	}
	return fmt.Sprintf("%v", v)
}

// ---- Byzantine point servers ----

func encodeProofRef(hashes [][]byte, index uint32, count uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, count)
	for _, h := range hashes {
		b = append(b, h...)
	}
	var ix [4]byte
	binary.LittleEndian.PutUint32(ix[:], index)
	return append(b, ix[:]...)
}

// entryAt returns the stored block of a position, padded to the block size.
func entryAt(db *database.Bytes, i int) []byte {
	off := 0
	for j := 0; j < i; j++ {
		off += db.BlockLengths[j]
	}
	// Merkle databases store every block at full size
	if len(db.Entries) == db.BlockSize*db.NumRows*db.NumColumns {
		off = i * db.BlockSize
		return append([]byte{}, db.Entries[off:off+db.BlockSize]...)
	}
	b := append([]byte{}, db.Entries[off:off+db.BlockLengths[i]]...)
	return append(b, make([]byte, db.BlockSize-len(b))...)
}

// craft returns a block the colluding servers want the client to accept.
func (x *Ctx) craft(p *pointDB, pos int, how int) ([]byte, string) {
	db := p.db
	bs := db.BlockSize
	own := entryAt(db, pos)
	n := len(p.want)
	other := (pos + 1 + x.Choice("other", n)) % n
	oth := entryAt(db, other)
	pl := db.ProofLen
	fit := func(data, proof []byte) []byte {
		b := append(append(append([]byte{}, data...), proof...), 0x80)
		if len(b) > bs {
			return b[:bs]
		}
		return append(b, make([]byte, bs-len(b))...)
	}
	split := func(e []byte) (data, proof []byte) {
		e = bytes.TrimRight(e, "\x00")
		if len(e) < pl+1 {
			return nil, nil
		}
		e = e[:len(e)-1]
		return e[:len(e)-pl], e[len(e)-pl:]
	}
	switch how {
	case 0:
		return oth, fmt.Sprintf("genuine record of position %d", other)
	case 1: // other data, own proof
		_, pr := split(own)
		d, _ := split(oth)
		return fit(d, pr), "data of another position with the proof of the asked one"
	case 2: // other record, its index rewritten to the asked position
		d, pr := split(oth)
		if len(pr) >= 4 {
			pr = append([]byte{}, pr...)
			binary.LittleEndian.PutUint32(pr[len(pr)-4:], uint32(pos))
		}
		return fit(d, pr), "another record with the asked index"
	case 3: // altered data byte
		b := append([]byte{}, own...)
		d, _ := split(own)
		if len(d) > 0 {
			b[x.Choice("bit", len(d))] ^= byte(1 << x.Choice("bitn", 8))
		}
		return b, "altered data byte"
	case 4: // an inner node of the tree presented as a record
		var leaves [][]byte
		depth := (pl - 8) / 32
		for i := 0; i < n; i++ {
			d, _ := split(entryAt(db, i))
			var ib [4]byte
			binary.LittleEndian.PutUint32(ib[:], uint32(i))
			leaves = append(leaves, merkle.NewBLAKE3().Hash(d, ib[:]))
		}
		for len(leaves) < 1<<depth {
			leaves = append(leaves, make([]byte, 32))
		}
		level := [][][]byte{leaves}
		for len(level[len(level)-1]) > 1 {
			cur := level[len(level)-1]
			var up [][]byte
			for i := 0; i+1 < len(cur); i += 2 {
				up = append(up, merkle.NewBLAKE3().Hash(cur[i], cur[i+1]))
			}
			level = append(level, up)
		}
		if depth < 1 || bs < 60+pl+1 {
			return oth, "genuine record of another position"
		}
		lv := 1 + x.Choice("innerlevel", depth)
		ni := x.Choice("innernode", len(level[lv]))
		pre := append(append([]byte{}, level[lv-1][2*ni]...), level[lv-1][2*ni+1]...)
		data := pre[:60]
		idx := binary.LittleEndian.Uint32(pre[60:])
		// siblings from this node upward; the path direction follows the low
		// bits of the index, so order is only right by luck: try both
		var hs [][]byte
		j := ni
		for l := lv; l < depth; l++ {
			hs = append(hs, level[l][j^1])
			j /= 2
		}
		pr := encodeProofRef(hs, idx, uint32(len(hs)))
		// the decoder finds the index at the end of the proof area
		if len(pr) < pl {
			fill := append([]byte{}, pr[:len(pr)-4]...)
			fill = append(fill, make([]byte, pl-len(pr))...)
			pr = append(fill, pr[len(pr)-4:]...)
		}
		return fit(data, pr), fmt.Sprintf("inner tree node (level %d) as a record", lv)
	case 5: // shorter data, proof unchanged
		d, pr := split(own)
		if len(d) > 0 {
			d = d[:len(d)-1-x.Choice("cut", len(d))]
		}
		return fit(d, pr), "shortened data"
	case 6: // data and proof of a different database of the same shape
		return nil, "foreign database"
	case 7: // claims a different number of hashes
		d, pr := split(own)
		pr = append([]byte{}, pr...)
		if len(pr) >= 4 {
			binary.LittleEndian.PutUint32(pr, uint32(x.Pick("nhashes", 0, 1, 2, 3, 7, 100, 1<<20, 1<<31-1, -1)))
		}
		return fit(d, pr), "wrong number of proof hashes"
	case 8:
		return make([]byte, bs), "all zeros"
	case 9: // index plus a multiple of the tree width: same path, other index
		d, pr := split(own)
		pr = append([]byte{}, pr...)
		depth := (pl - 8) / 32
		if len(pr) >= 4 {
			binary.LittleEndian.PutUint32(pr[len(pr)-4:], uint32(pos)+uint32(1)<<uint(depth))
		}
		return fit(d, pr), "aliased index"
	}
	return oth, "genuine record of another position"
}

// c02 runs authenticated point retrieval with lying servers.
func c02(x *Ctx) {
	p := x.makePointDB(true)
	n := len(p.want)
	k := x.Pick("servers", 2, 2, 3, 4)
	nbad := 1
	if k > 2 {
		nbad = 1 + x.Choice("nbad", k-1)
	}
	good := x.Choice("honest", k)
	servers := x.pointServers(p, k, "server")
	link := x.drawLink()
	// a second database of the same shape, for stale and foreign answers
	var old *pointDB
	if len(p.keys) == 0 {
		old = &pointDB{kind: p.kind, merkle: true}
		rows, cols := p.db.NumRows, p.db.NumColumns
		bl := len(p.want[0])
		s2 := x.RandFor("olddb")
		x.Must("build", func() { old.db = database.CreateRandomMerkle(s2, rows*cols*bl*8, rows, bl) })
		if old.db.BlockSize != p.db.BlockSize {
			old = nil
		}
	}
	var oldServers []*Peer
	if old != nil {
		oldServers = x.pointServers(old, k, "oldserver")
	}
	session := func() {
		info := p.db.Info
		cn := x.libNode("client", false)
		var cl *client.PIR
		cn.Call(time.Hour, func() { cl = client.NewPIR(randReader, &info) })
		var prev [][]byte
		nq := 1 + x.Choice("queries", 3)
		x.Cover("db=%s k=%d bad=%d", p.kind, k, nbad)
		for q := 0; q < nq; q++ {
			pos := x.pickPos(n, p.db.NumColumns)
			var qs [][]byte
			var err error
			r := cn.Call(time.Hour, func() { qs, err = cl.QueryBytes(be4(pos), k) })
			x.Check(r.OK() && err == nil, "query", "query: %s %v", r, err)
			honest := x.Honest(servers, x.Ask(servers, qs, link))
			ans := cloneAll(honest)
			// who lies: all but the honest one, or fewer
			var liars []int
			for i := 1; i <= nbad; i++ {
				liars = append(liars, (good+i)%k)
			}
			l := liars[0]
			what := ""
			row := pos / p.db.NumColumns
			bs := p.db.BlockSize
			x.Count("fault:byzantine-answer")
			switch a := x.Choice("attack", 16); a {
			case 0, 1, 2, 3, 4, 5, 7, 8, 9:
				blk, w := x.craft(p, pos, a)
				what = w
				if blk != nil {
					delta := entryAt(p.db, pos)
					xorInto(delta, blk)
					xorInto(ans[l][row*bs:(row+1)*bs], delta)
				}
			case 6:
				what = "answers computed over another database"
				if oldServers != nil {
					oa := x.Honest(oldServers, x.Ask(oldServers, qs, link))
					for _, i := range liars {
						ans[i] = oa[i]
					}
				}
			case 10:
				what = "truncated answer"
				ans[l] = ans[l][:x.Choice("cutat", len(ans[l]))]
			case 11:
				what = "extended answer"
				ans[l] = append(ans[l], randBytes(x.RandFor("ext"), 1+x.Choice("ext", 40))...)
			case 12:
				what = "replayed answer"
				if prev != nil {
					ans[l] = prev[l]
				} else {
					ans[l] = append([]byte{}, ans[good]...)
				}
			case 13:
				what = "random bit flips"
				for f := 0; f <= x.Choice("nflips", 6); f++ {
					ans[l][row*bs+x.Choice("flipat", bs)] ^= byte(1 << x.Choice("flipbit", 8))
				}
			case 14:
				what = "row of another query"
				o := x.Choice("otherrow", p.db.NumRows)
				copy(ans[l][row*bs:(row+1)*bs], ans[l][o*bs:(o+1)*bs])
			case 15:
				what = "answer to a query for another position"
				var qs2 [][]byte
				var cl2 *client.PIR
				info2 := p.db.Info
				o := x.pickPos(n, p.db.NumColumns)
				cn2 := x.libNode("client2", false)
				cn2.Call(time.Hour, func() {
					cl2 = client.NewPIR(randReader, &info2)
					qs2, _ = cl2.QueryBytes(be4(o), k)
				})
				// all servers but one answer the other query consistently
				oa := x.Honest(servers, x.Ask(servers, qs2, link))
				for _, i := range liars {
					ans[i] = oa[i]
				}
			}
			x.Tracef("client asks position %d; lying servers %v: %s", pos, liars, what)
			x.Cover("attack=%s", firstWords(what, 3))
			var res interface{}
			given := cloneAll(ans)
			r = cn.Call(time.Hour, func() { res, err = cl.ReconstructBytes(given) })
			x.Nontrivial()
			x.Check(r.OK(), "crash", "reconstruction with %s: %s\n%s", what, r, r.Stack)
			if err == nil {
				x.Check(sameBytes(res, p.want[pos]), "accepted-wrong", "position %d of %d (%s, %d servers, %d lying): with %s the client accepted %s, stored is %s",
					pos, n, p.kind, k, nbad, what, show(res), short(p.want[pos]))
				x.Count("accepted-genuine")
			} else {
				x.Count("rejected")
			}
			prev = honest
		}
	}
	var acts []func()
	for c := 0; c < x.Pick("clients", 1, 1, 2, 3); c++ {
		acts = append(acts, session)
	}
	x.Par(acts...)
}

func firstWords(s string, n int) string {
	c := 0
	for i := range s {
		if s[i] == ' ' {
			c++
			if c == n {
				return s[:i]
			}
		}
	}
	return s
}

func init() {
	real := "client.PIR, server.PIR, database constructors and key loading, merkle, dpf-go; key files on the simulated disk"
	stub := "message transport between client and servers (simulated links), clock, scheduler, randomness (seeded)"
	register(&Property{ID: "C01", Rule: "one run = one database (shape, content, kind), 2-7 servers, 1-3 concurrent clients with 1-5 queries each; non-trivial = at least one full query was reconstructed and compared; distinct by the hash of the run's event log",
		Real: real, Stub: stub,
		Scenarios: []Scenario{{Name: "honest", Weight: 1, Run: c01}}})
	register(&Property{ID: "C02", Rule: "one run = one authenticated database, one honest and 1..k-1 lying servers, 1-3 queries with one attack each; non-trivial = a manipulated answer set reached the reconstruction; distinct by the hash of the run's event log",
		Real: real, Stub: stub + "; lying servers alter answers the real server code computed",
		Scenarios: []Scenario{{Name: "lying", Weight: 1, Run: c02}}})
}
