package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"math/bits"
	"reflect"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/dkales/dpf-go/dpf"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zzsim/rt"
)

// qScheme is one way of querying, as far as a server sees it.
type qScheme struct {
	name    string
	servers int
	reps    int
	// newClient returns a query function for target 0 or 1, in the given process
	newClient func(n *rt.Node) func(target int) ([][]byte, error)
	// bitsOf turns what server s received into comparable bits
	bitsOf func(s int, m []byte) ([]byte, error)
	fixed  bool // messages are of one length
	chunk  int  // granularity at which no two queries may agree; 0: whole message
	small  bool // messages may repeat by chance
	word   int  // size of little-endian words whose differences are to be uniform
	words  []int
	n      int
	what   [2]string
	// alphas recovers the secret multipliers from all shares of a query
	alphas func(target int, ms [][]byte) ([]uint32, [][]uint32, error)
}

func rawBits(m []byte) []byte {
	out := make([]byte, 0, 8*len(m))
	for _, c := range m {
		for i := 0; i < 8; i++ {
			out = append(out, c>>uint(i)&1)
		}
	}
	return out
}

func intBits(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v>>uint(i)) & 1
	}
	return out
}

// flatten turns a decoded message into bits, whatever its structure.
func flatten(v reflect.Value, out *[]byte, shape *[]int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			*shape = append(*shape, -1)
			return
		}
		flatten(v.Elem(), out, shape)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flatten(v.Field(i), out, shape)
		}
	case reflect.Slice, reflect.Array:
		*shape = append(*shape, v.Len())
		for i := 0; i < v.Len(); i++ {
			flatten(v.Index(i), out, shape)
		}
	case reflect.String:
		*shape = append(*shape, v.Len())
		*out = append(*out, rawBits([]byte(v.String()))...)
	case reflect.Bool:
		b := byte(0)
		if v.Bool() {
			b = 1
		}
		*out = append(*out, b)
	case reflect.Uint8:
		*out = append(*out, intBits(v.Uint(), 8)...)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		*out = append(*out, intBits(v.Uint(), 32)...)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, intBits(uint64(v.Int()), 32)...)
	}
}

func (x *Ctx) pointScheme() *qScheme {
	k := x.Pick("servers", 2, 2, 3, 4, 5)
	cols := x.Pick("cols", 8, 2, 3, 16, 33, 64, 130, 200)
	rows := x.Pick("rows", 1, 2, 3)
	info := database.Info{NumRows: rows, NumColumns: cols, BlockSize: 16, PIRType: x.PickS("pirtype", "classical", "merkle", ""), Merkle: &database.Merkle{Root: make([]byte, 32), ProofLen: 40}}
	a, b := x.Choice("posA", rows*cols), x.Choice("posB", rows*cols)
	if a == b {
		b = (a + 1) % (rows * cols)
	}
	s := &qScheme{name: fmt.Sprintf("point-%d", min(k, 3)), servers: k, fixed: true, n: 150, what: [2]string{fmt.Sprint("position ", a), fmt.Sprint("position ", b)}}
	pos := [2]int{a, b}
	s.small = k > 2 && cols < 120
	rnd := x.Choice("rnd", 2)
	s.newClient = func(n *rt.Node) func(int) ([][]byte, error) {
		inf := info
		c := client.NewPIR(pointRnd(rnd), &inf)
		return func(t int) ([][]byte, error) { return c.QueryBytes(be4(pos[t]), k) }
	}
	lg := uint64(bits.Len(uint(cols)))
	s.bitsOf = func(sv int, m []byte) ([]byte, error) {
		out := rawBits(m)
		if k == 2 {
			// what the server can compute from its share
			ev := dpf.EvalFull(m, lg)
			for _, p := range pos {
				col := p % cols
				out = append(out, ev[col/8]>>uint(col%8)&1)
			}
		}
		return out, nil
	}
	return s
}

func (x *Ctx) fssScheme() *qScheme {
	auth := x.Choice("auth", 3) > 0
	kind := x.Choice("pred", nPreds)
	pool := []string{"alice@x.edu", "bobby@y.org", "zzzzz@x.edu", "al", "bo", "a", "b", "\x00\x00", "\xff\xff", "carol@a.edu"}
	mk := func(t string) *pred {
		p := &pred{kind: kind, text: t}
		switch kind {
		case pPrefix:
			p.info.FromStart = len(t)
		case pSuffix, pAnd, pAvg:
			p.info.FromEnd = len(t)
		case pAlgo:
			p.info.Target = query.PubKeyAlgo
		case pTime:
			p.info.Target = query.CreationTime
		}
		switch kind {
		case pAnd, pAndWhole:
			p.info.And = true
		case pAvg, pAvgWhole:
			p.info.And, p.info.Avg = true, true
		}
		return p
	}
	ta := pool[x.Choice("textA", len(pool))]
	tb := ta
	for i := x.Choice("textB", len(pool)); tb == ta || len(tb) != len(ta); i++ {
		tb = pool[i%len(pool)]
		if i > 100 {
			tb = string(bytes.Repeat([]byte{'q'}, len(ta)))
			break
		}
	}
	switch kind {
	case pAlgo:
		i := x.Choice("algoA", 5)
		ta, tb = algoNames[i], algoNames[(i+1+x.Choice("algoB", 4))%5]
	case pTime:
		y := 1990 + x.Choice("yearA", 40)
		ta, tb = fmt.Sprint(y), fmt.Sprint(y+1+x.Choice("yearB", 9))
	}
	ps := [2]*pred{mk(ta), mk(tb)}
	s := &qScheme{name: fmt.Sprintf("predicate auth=%v kind=%d", auth, kind), servers: 2, n: 110, what: [2]string{fmt.Sprintf("%q", ta), fmt.Sprintf("%q", tb)}}
	info := database.Info{NumColumns: 10}
	rnd := x.Choice("rnd", 2)
	s.newClient = func(n *rt.Node) func(int) ([][]byte, error) {
		inf := info
		var c predClient
		if auth {
			c = client.NewPredicateAPIR(pointRnd(rnd), &inf)
		} else {
			c = client.NewPredicatePIR(pointRnd(rnd), &inf)
		}
		return func(t int) ([][]byte, error) {
			in, err := ps[t].encode()
			if err != nil {
				return nil, err
			}
			return c.QueryBytes(in, 2)
		}
	}
	input := func(t int) []bool {
		in, _ := ps[t].encode()
		q, err := query.DecodeClientFSS(in)
		if err != nil {
			return nil
		}
		return q.Input
	}
	ins := [2][]bool{input(0), input(1)}
	n := 1
	if auth {
		n = 5
	}
	eval := func(sv int, m []byte, t int) ([]uint32, error) {
		var q *query.FSS
		if err := gob.NewDecoder(bytes.NewReader(m)).Decode(&q); err != nil {
			return nil, err
		}
		out := make([]uint32, n)
		fss.ServerInitialize(n).EvaluatePF(byte(sv), q.FssKey, ins[t], out)
		return out, nil
	}
	s.bitsOf = func(sv int, m []byte) ([]byte, error) {
		var q *query.FSS
		if err := gob.NewDecoder(bytes.NewReader(m)).Decode(&q); err != nil {
			return nil, err
		}
		var out []byte
		var shape []int
		flatten(reflect.ValueOf(q), &out, &shape)
		for _, l := range shape {
			out = append(out, intBits(uint64(int64(l)), 10)...)
		}
		out = append(out, intBits(uint64(len(m)), 14)...)
		for t := range ins {
			vs, err := eval(sv, m, t)
			if err != nil {
				return nil, err
			}
			for _, v := range vs {
				out = append(out, intBits(uint64(v), 31)...)
				z := byte(0)
				if v == 0 || v == 1 || v == fieldP-1 {
					z = 1
				}
				out = append(out, z)
			}
		}
		return out, nil
	}
	if auth {
		s.alphas = func(t int, ms [][]byte) ([]uint32, [][]uint32, error) {
			e0, err := eval(0, ms[0], t)
			if err != nil {
				return nil, nil, err
			}
			e1, err := eval(1, ms[1], t)
			if err != nil {
				return nil, nil, err
			}
			var al []uint32
			for i := range e0 {
				al = append(al, uint32((uint64(e0[i])+uint64(e1[i]))%fieldP))
			}
			// all a server can read off or compute at the searched input
			var seen [][]uint32
			for sv, m := range ms {
				var q *query.FSS
				if err := gob.NewDecoder(bytes.NewReader(m)).Decode(&q); err != nil {
					return nil, nil, err
				}
				v := append([]uint32{}, q.FssKey.FinalCW...)
				e, err := eval(sv, m, t)
				if err != nil {
					return nil, nil, err
				}
				v = append(v, e...)
				seen = append(seen, v)
			}
			return al, seen, nil
		}
	}
	return s
}

func (x *Ctx) latticeScheme() *qScheme {
	kind := x.Choice("lattice", 3)
	rows := x.Pick("rows", 4, 1, 2, 3, 8)
	cols := x.Pick("cols", 3, 1, 5)
	a := x.Choice("posA", rows*cols)
	b := x.Choice("posB", rows*cols)
	if a == b {
		b = (a + 1) % (rows * cols)
	}
	if a == b {
		cols = 2
		b = 1 - a
	}
	pos := [2]int{a, b}
	s := &qScheme{name: ssNames[kind], servers: 1, fixed: true, n: 110, word: 4, what: [2]string{fmt.Sprint("position ", a), fmt.Sprint("position ", b)}}
	if kind == ssLWE128 {
		s.word = 16
		s.n = 60
	}
	seed := x.RandFor("db")
	rnd := x.Choice("rnd", 2)
	tecc := x.Choice("tecc", 2)
	reps, off := 1, 8
	if kind == ssAmplify {
		reps, off = 2*tecc+1, 12
	}
	s.reps = reps
	for r := 0; r < reps; r++ {
		for i := 0; i < rows; i++ {
			s.words = append(s.words, off+r*(8+s.word*rows)+i*s.word)
		}
	}
	source := func() io.Reader {
		if x.zeroRnd {
			return zeroes{upTo: x.zeroUpTo}
		}
		return pointRnd(rnd)
	}
	s.newClient = func(n *rt.Node) func(int) ([][]byte, error) {
		one := func(q []byte, err error) ([][]byte, error) { return [][]byte{q}, err }
		switch kind {
		case ssLWE:
			db := database.CreateRandomBinaryLWE(seed, rows, cols)
			c := client.NewLWE(source(), &db.Info, utils.ParamsWithDatabaseSize(rows, cols))
			return func(t int) ([][]byte, error) { return one(c.QueryBytes(pos[t])) }
		case ssAmplify:
			db := database.CreateRandomBinaryLWE(seed, rows, cols)
			c := client.NewAmplify(source(), &db.Info, utils.ParamsWithDatabaseSize(rows, cols), tecc)
			return func(t int) ([][]byte, error) { return one(c.QueryBytes(pos[t])) }
		}
		db := database.CreateRandomBinaryLWE128(seed, rows, cols)
		c := client.NewLWE128(source(), &db.Info, utils.ParamsWithDatabaseSize128(rows, cols))
		return func(t int) ([][]byte, error) { return one(c.QueryBytes(pos[t])) }
	}
	s.bitsOf = func(sv int, m []byte) ([]byte, error) { return rawBits(m), nil }
	return s
}

// leWord returns a number of a lattice message, the lowest byte first: those
// of 32 bits are sent the other way round.
func leWord(b []byte) []byte {
	c := append([]byte{}, b...)
	if len(c) == 4 {
		c[0], c[1], c[2], c[3] = c[3], c[2], c[1], c[0]
	}
	return c
}

// zeroes is a source of zeroes, but random in reads of few bytes.
type zeroes struct{ upTo int }

func (z zeroes) Read(b []byte) (int, error) {
	if len(b) <= z.upTo {
		return randReader.Read(b)
	}
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

// c07noise isolates the noise of the lattice schemes, without which their
// queries hide nothing from a server with more rows than the lattice has
// dimensions: with a secret of zeroes a query consists of its noise. Where the
// secret is drawn elsewhere, and so is not zero, there is nothing to judge.
func c07noise(x *Ctx) {
	x.zeroRnd = true
	s := x.latticeScheme()
	x.Cover("%s", s.name)
	n := 2400/len(s.words) + 2
	fresh := x.Choice("freshclients", 3) == 2
	var ask func(int) ([][]byte, error)
	var cn *rt.Node
	var sum, sum2, cnt float64
	per := make([][]int32, len(s.words))
	for i := 0; i < n; i++ {
		if ask == nil || fresh {
			cn = x.NewNode(fmt.Sprintf("client%d", i)).Light()
			r := cn.Call(time.Hour, func() { ask = s.newClient(cn) })
			x.Check(r.OK(), "new-client", "creating a %s client: %s\n%s", s.name, r, r.Stack)
		}
		var ms [][]byte
		var err error
		r := cn.Call(time.Hour, func() { ms, err = ask(i & 1) })
		x.Check(r.OK() && err == nil && len(ms) == 1, "query", "%s query for %s: %s %v (%d messages)", s.name, s.what[i&1], r, err, len(ms))
		for k, o := range s.words {
			if o+s.word > len(ms[0]) {
				x.Cover("noise not isolated")
				return
			}
			w := leWord(ms[0][o : o+s.word])
			v := int32(binary.LittleEndian.Uint32(w))
			sign := byte(0)
			if v < 0 {
				sign = 255
			}
			for _, b := range w[2:] {
				if b != sign {
					x.Cover("noise not isolated")
					return
				}
			}
			sum += float64(v)
			sum2 += float64(v) * float64(v)
			cnt++
			per[k] = append(per[k], v)
		}
	}
	x.Nontrivial()
	mean := sum / cnt
	dev := math.Sqrt(sum2/cnt - mean*mean)
	want := utils.ParamsDefault().Sigma
	x.Check(dev > want*0.8 && dev < want*1.25 && math.Abs(mean) < want/4, "noise", "the noise in %s queries has mean %.2f and deviation %.2f over %d samples, it should be 0 and %.1f", s.name, mean, dev, int(cnt), want)
	// fresh everywhere and every time
	pairs, equal := 0, 0
	for k := range per {
		for i := 1; i < len(per[k]); i++ {
			pairs++
			if per[k][i] == per[k][i-1] {
				equal++
			}
			if k > 0 {
				pairs++
				if per[k][i] == per[k-1][i] {
					equal++
				}
			}
		}
	}
	x.Check(float64(equal) < 0.12*float64(pairs)+20, "noise-reused", "%d of %d pairs of noise values in %s queries are equal", equal, pairs, s.name)
}

// c06tags isolates the secret by which the lattice schemes recognise an answer
// computed over something else than the digest stands for: with a secret
// vector of zeroes a query shows it, added to the noise at the asked row. It
// has to be new and unpredictable for every query. Where the secret vector is
// not zero all the same, or the tag is drawn with it, there is nothing to judge.
func c06tags(x *Ctx) {
	x.zeroRnd, x.zeroUpTo = true, 16
	s := x.latticeScheme()
	x.Cover("tags %s", s.name)
	fresh := x.Choice("freshclients", 3) == 2
	var ask func(int) ([][]byte, error)
	var cn *rt.Node
	const n = 150
	ones := make([]int64, 8*s.word)
	seen := map[string]int{}
	total := 0
	for i := 0; i < n; i++ {
		if ask == nil || fresh {
			cn = x.NewNode(fmt.Sprintf("client%d", i)).Light()
			r := cn.Call(time.Hour, func() { ask = s.newClient(cn) })
			x.Check(r.OK(), "new-client", "creating a %s client: %s\n%s", s.name, r, r.Stack)
		}
		var ms [][]byte
		var err error
		r := cn.Call(time.Hour, func() { ms, err = ask(i & 1) })
		x.Check(r.OK() && err == nil && len(ms) == 1, "query", "%s query for %s: %s %v (%d messages)", s.name, s.what[i&1], r, err, len(ms))
		perRep := len(s.words)
		if s.reps > 0 {
			perRep /= s.reps
		}
		for r := 0; r < len(s.words)/perRep; r++ {
			big := 0
			var tag []byte
			for k := 0; k < perRep; k++ {
				o := s.words[r*perRep+k]
				if o+s.word > len(ms[0]) {
					x.Cover("tags not isolated")
					return
				}
				w := leWord(ms[0][o : o+s.word])
				small := w[0] <= 120 || w[0] >= 136
				for _, b := range w[1:] {
					if w[0] <= 120 && b != 0 || w[0] >= 136 && b != 255 {
						small = false
					}
				}
				if !small {
					big++
					tag = w
				}
			}
			if big > 1 || big == 0 && total < 3 {
				x.Cover("tags not isolated")
				return
			}
			if big == 0 {
				continue
			}
			total++
			// without the bits the noise reaches
			seen[string(tag[1:])]++
			for j, v := range rawBits(tag) {
				ones[j] += int64(v)
			}
		}
	}
	x.Nontrivial()
	x.Check(total > 100 && len(seen) > total*3/4, "tag-reused", "%s: %d queries have %d different tags", s.name, total, len(seen))
	for j := 8; j < len(ones); j++ {
		z := math.Abs(float64(ones[j])-float64(total)/2) / math.Sqrt(float64(total)/4)
		x.Check(z < zLimit, "tag-bits", "%s: bit %d of the tag is set in %d of %d queries", s.name, j, ones[j], total)
	}
}

func (x *Ctx) dhScheme() *qScheme {
	g := []group.Group{group.Ristretto255, group.P256}[x.Choice("group", 2)]
	n := x.Pick("dblen", 4, 2, 3, 9)
	sq := x.Choice("square", 2) == 1
	s := &qScheme{name: "dh", servers: 1, fixed: true, n: 60}
	seed := x.RandFor("db")
	rnd := x.Choice("rnd", 2)
	var db *database.Elliptic
	x.Must("build", func() { db = database.CreateRandomEllipticWithDigest(seed, n, g, sq) })
	tot := db.NumRows * db.NumColumns
	a := x.Choice("posA", tot)
	b := x.Choice("posB", tot)
	if a == b {
		b = (a + 1) % tot
	}
	pos := [2]int{a, b}
	s.what = [2]string{fmt.Sprint("position ", a), fmt.Sprint("position ", b)}
	s.chunk = db.ElementSize
	s.newClient = func(nd *rt.Node) func(int) ([][]byte, error) {
		c := client.NewDH(pointRnd(rnd), &db.Info)
		return func(t int) ([][]byte, error) {
			q, err := c.QueryBytes(pos[t])
			return [][]byte{q}, err
		}
	}
	s.bitsOf = func(sv int, m []byte) ([]byte, error) { return rawBits(m), nil }
	return s
}

const zLimit = 8.0

// c07 compares what each server sees for two targets, over many queries.
func c07stat(x *Ctx, s *qScheme) {
	x.Cover("%s", s.name)
	x.Nontrivial()
	n := s.n
	fresh := x.Choice("freshclients", 3) == 2 // a new client for every query
	var counts [2][][]int64                   // target, server, bit
	var firstLen = make([]int, s.servers)
	var nbits = make([]int, s.servers)
	prev := [2][][]byte{}
	prevBits := [2][][]byte{}
	same := make([][]int64, s.servers)
	seen := make([]map[string]string, s.servers)
	wordOnes := map[int]int64{}
	wordN := int64(0)
	alphaHits := 0
	var prevAlpha []uint32
	alphaSame := 0
	var alphaBits [31]int64
	alphaN := int64(0)
	for t := 0; t < 2; t++ {
		counts[t] = make([][]int64, s.servers)
	}
	for i := range seen {
		seen[i] = map[string]string{}
	}
	var ask func(int) ([][]byte, error)
	var cn *rt.Node
	for i := 0; i < 2*n; i++ {
		t := i & 1
		if ask == nil || fresh {
			cn = x.NewNode(fmt.Sprintf("client%d", i)).Light()
			r := cn.Call(time.Hour, func() { ask = s.newClient(cn) })
			x.Check(r.OK(), "new-client", "creating a %s client: %s\n%s", s.name, r, r.Stack)
		}
		var ms [][]byte
		var err error
		r := cn.Call(time.Hour, func() { ms, err = ask(t) })
		x.Check(r.OK() && err == nil && len(ms) == s.servers, "query", "%s query for %s: %s %v (%d messages)", s.name, s.what[t], r, err, len(ms))
		for sv, m := range ms {
			if s.fixed {
				if firstLen[sv] == 0 {
					firstLen[sv] = len(m)
				}
				x.Check(len(m) == firstLen[sv], "length", "%s: server %d receives %d bytes for %s, %d before", s.name, sv, len(m), s.what[t], firstLen[sv])
			}
			b, err := s.bitsOf(sv, m)
			x.Check(err == nil, "message", "%s: message to server %d not readable: %v", s.name, sv, err)
			if nbits[sv] == 0 {
				nbits[sv] = len(b)
				same[sv] = make([]int64, len(b))
			}
			x.Check(len(b) == nbits[sv], "structure", "%s: what server %d receives for %s has another structure than before (%d, %d)", s.name, sv, s.what[t], len(b), nbits[sv])
			if counts[t][sv] == nil {
				counts[t][sv] = make([]int64, len(b))
			}
			c := counts[t][sv]
			for j, v := range b {
				c[j] += int64(v)
			}
			if prevBits[t] != nil {
				p := prevBits[t][sv]
				for j, v := range b {
					if p[j] == v {
						same[sv][j]++
					}
				}
			}
			// no two queries alike
			if !s.small {
				ch := s.chunk
				if ch == 0 {
					ch = len(m)
				}
				for o := 0; o+ch <= len(m); o += ch {
					k := string(m[o:o+ch]) + fmt.Sprint("|", o)
					at := fmt.Sprintf("query %d for %s", i, s.what[t])
					x.Check(seen[sv][k] == "", "repeated", "%s: %s sends server %d the same as %s did", s.name, at, sv, seen[sv][k])
					seen[sv][k] = at
				}
			}
			if s.word > 0 && prev[t] != nil {
				// both the words and their differences must look uniform
				p := prev[t][sv]
				for _, o := range s.words {
					if o+s.word > len(m) || o+s.word > len(p) {
						continue
					}
					d := leWord(m[o : o+s.word])
					addLE(d, leWord(p[o:o+s.word]), true)
					for j, v := range rawBits(d) {
						wordOnes[o*8+j] += int64(v)
					}
				}
			}
		}
		if s.word > 0 && prev[t] != nil {
			wordN++
		}
		if s.alphas != nil {
			al, ints, err := s.alphas(t, ms)
			x.Check(err == nil, "message", "%s: messages not readable: %v", s.name, err)
			x.Check(al[0] == 1, "share", "%s: the shares do not add up to one at the searched input: %d", s.name, al[0])
			for sv := range ints {
				for _, v := range ints[sv] {
					for _, a := range al[1:] {
						if v == a || (uint64(v)+uint64(a))%fieldP == 0 {
							alphaHits++
							x.Check(alphaHits < 3, "alpha-visible", "%s: server %d finds the secret multiplier %d in its query", s.name, sv, a)
						}
					}
				}
			}
			for j, a := range al[1:] {
				for k := 0; k < 31; k++ {
					alphaBits[k] += int64(a >> uint(k) & 1)
				}
				alphaN++
				if prevAlpha != nil && prevAlpha[j] == a {
					alphaSame++
				}
				for jj, a2 := range al[1:] {
					if jj > j && a == a2 {
						alphaSame++
					}
				}
			}
			x.Check(alphaSame < 3, "alpha-reused", "%s: secret multipliers are reused", s.name)
			prevAlpha = append([]uint32{}, al[1:]...)
		}
		if prev[t] == nil {
			prev[t] = make([][]byte, s.servers)
			prevBits[t] = make([][]byte, s.servers)
		}
		for sv, m := range ms {
			prev[t][sv] = append([]byte{}, m...)
			b, _ := s.bitsOf(sv, m)
			prevBits[t][sv] = b
		}
	}
	N := float64(n)
	for sv := 0; sv < s.servers; sv++ {
		for j := range counts[0][sv] {
			a, b := float64(counts[0][sv][j]), float64(counts[1][sv][j])
			p := (a + b) / (2 * N)
			if p == 0 || p == 1 {
				continue
			}
			z := math.Abs(a-b) / math.Sqrt(2*N*p*(1-p))
			x.Check(z < zLimit, "distribution", "%s: bit %d of what server %d sees is set in %d of %d queries for %s but in %d for %s", s.name, j, sv, int(a), n, s.what[0], int(b), s.what[1])
			// successive queries for the same target are unrelated
			if p > 0.15 && p < 0.85 {
				m := 2 * (N - 1)
				e := p*p + (1-p)*(1-p)
				sd := math.Sqrt(m*e*(1-e)) * 1.5
				z := math.Abs(float64(same[sv][j])-m*e) / sd
				x.Check(z < zLimit, "correlated", "%s: bit %d of what server %d sees agrees with that of the previous query for the same target %d times of %d", s.name, j, sv, same[sv][j], int(m))
			}
		}
	}
	if s.word > 0 {
		for o, c := range wordOnes {
			z := math.Abs(float64(c)-float64(wordN)/2) / math.Sqrt(float64(wordN)/4)
			x.Check(z < zLimit+1, "difference", "%s: bit %d of the difference of two queries for the same position is set %d times of %d", s.name, o, c, wordN)
		}
	}
	if alphaN > 0 {
		for k, c := range alphaBits {
			z := math.Abs(float64(c)-float64(alphaN)/2) / math.Sqrt(float64(alphaN)/4)
			x.Check(z < zLimit, "alpha-biased", "%s: bit %d of the secret multipliers is set %d times of %d", s.name, k, c, alphaN)
		}
	}
	x.Count("queries-compared")
}

// c07fresh runs clients in processes that share everything predictable.
func c07fresh(x *Ctx) {
	s := x.anyScheme()
	x.Cover("fresh %s", s.name)
	x.Nontrivial()
	m := int64(x.Choice("mathseed", 1000))
	var got [][][]byte
	for i := 0; i < 2; i++ {
		n := x.NewNode("client").Light()
		n.SeedRand(m, int64(x.RandFor("crypto").Int63()))
		var ask func(int) ([][]byte, error)
		var ms [][]byte
		var err error
		r := n.Call(time.Hour, func() {
			ask = s.newClient(n)
			ms, err = ask(0)
		})
		x.Check(r.OK() && err == nil, "query", "%s query: %s %v", s.name, r, err)
		got = append(got, ms)
	}
	if s.small {
		return
	}
	for sv := range got[0] {
		a, b := got[0][sv], got[1][sv]
		x.Check(!bytes.Equal(a, b), "predictable", "%s: two client processes started at the same moment send server %d the same query", s.name, sv)
		ch := s.chunk
		if ch == 0 {
			ch = s.word
		}
		if ch < 16 {
			continue
		}
		first := 0
		if s.word > 0 {
			first = 8
		}
		for o := first; o+ch <= len(a) && o+ch <= len(b); o += ch {
			x.Check(!bytes.Equal(a[o:o+ch], b[o:o+ch]), "predictable", "%s: two client processes started at the same moment send server %d the same element at %d", s.name, sv, o)
		}
	}
}

func (x *Ctx) anyScheme() *qScheme {
	switch x.Choice("scheme", 6) {
	case 0, 1:
		return x.pointScheme()
	case 2, 3:
		return x.fssScheme()
	case 4:
		return x.latticeScheme()
	}
	return x.dhScheme()
}

// c07few asks with too few servers.
func c07few(x *Ctx) {
	info := database.Info{NumRows: 2, NumColumns: 9, BlockSize: 16}
	what := ""
	var ms [][]byte
	var err error
	n := x.Pick("numservers", 1, 0, -1)
	f := func() {}
	switch x.Choice("client", 3) {
	case 0:
		what = "point"
		f = func() { ms, err = client.NewPIR(pointRnd(0), &info).QueryBytes(be4(x.Choice("pos", 18)), n) }
	case 1:
		what = "predicate"
		p := &pred{kind: pEmail, text: "alice@x.edu"}
		f = func() {
			in, _ := p.encode()
			ms, err = client.NewPredicatePIR(pointRnd(0), &info).QueryBytes(in, n)
		}
	case 2:
		what = "authenticated predicate"
		p := &pred{kind: pAvgWhole, text: "alice@x.edu"}
		p.info.And, p.info.Avg = true, true
		f = func() {
			in, _ := p.encode()
			ms, err = client.NewPredicateAPIR(pointRnd(0), &info).QueryBytes(in, n)
		}
	}
	x.Cover("few %s %d", what, n)
	x.Nontrivial()
	r := x.Do("client", f)
	x.Check(!r.OK() || err != nil || len(ms) == 0, "too-few", "a %s client issued a query for %d servers: %d messages", what, n, len(ms))
}

var _ = binary.BigEndian

func init() {
	register(&Property{ID: "C07", Rule: "one run = one scheme and two targets (same text length), 60-150 queries for each, every bit of each server's view (and of what it can compute from its share at the two targets) compared between the targets with a two-proportion test at 8 standard deviations, and successive queries for agreement; or one of the freshness, refusal and deployed scenarios; non-trivial = messages were compared; distinct by the hash of the run's event log",
		Real: "all clients' query generation (client, query, fss, dpf-go, matrix, group code); for the deployed scenario also the command-line client, manager and servers",
		Stub: "randomness is seeded per process (cryptographic and ordinary separately), clock, scheduler, network",
		Assume: []string{
			"a statistical comparison: a leak below about 0.3 in the probability of any single observed bit is not seen; computational indistinguishability is C19",
		},
		Scenarios: []Scenario{
			{Name: "point", Weight: 20, Run: func(x *Ctx) { c07stat(x, x.pointScheme()) }},
			{Name: "predicate", Weight: 30, Run: func(x *Ctx) { c07stat(x, x.fssScheme()) }},
			{Name: "lattice", Weight: 12, Run: func(x *Ctx) { c07stat(x, x.latticeScheme()) }},
			{Name: "noise", Weight: 4, Run: c07noise},
			{Name: "dh", Weight: 12, Run: func(x *Ctx) { c07stat(x, x.dhScheme()) }},
			{Name: "fresh", Weight: 30, Run: c07fresh},
			{Name: "few", Weight: 6, Run: c07few},
			{Name: "deployed", Weight: 6, Run: c07deployed},
			{Name: "faults", Weight: 4, Run: c07faults},
		}})
}
