package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zzsim/rt"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	gproto "google.golang.org/protobuf/proto"
)

const (
	methodQuery = "/proto.VPIR/Query"
	methodInfo  = "/proto.VPIR/DatabaseInfo"
)

// deployment is a set of the repository's server programs and what they serve.
type deployment struct {
	x                 *Ctx
	scheme            string
	k                 int
	addrs             []string
	srv               []*rt.Node
	fx                []*Fixture
	attrs             []attr
	disk              *rt.Disk
	nfiles            int
	year              int
	exper             bool
	cliExper          bool // clients report what they measured
	bySrv             map[*rt.Node]int
	sim               bool // the servers of the simulations directory
	simRows, simBlock int
}

func (d *deployment) point() bool { return strings.HasPrefix(d.scheme, "point") || d.sim }
func (d *deployment) auth() bool  { return strings.HasSuffix(d.scheme, "VPIR") }

func hostOf(a string) string { return a[:strings.LastIndex(a, ":")] }

func tomlFor(addrs []string) []byte {
	var b strings.Builder
	for _, i := range []int{2, 0, 1, 4, 3, 5, 6} { // the order in the file has no meaning
		if i < len(addrs) {
			p := strings.LastIndex(addrs[i], ":")
			fmt.Fprintf(&b, "[servers.%d]\nip = \"%s\"\nport = %s\n", i, addrs[i][:p], addrs[i][p+1:])
		}
	}
	return []byte(b.String())
}

// prepare lays out configuration and key files; nothing runs yet.
func (x *Ctx) prepare(scheme string, addrs []string, fx []*Fixture, nfiles int) *deployment {
	d := &deployment{x: x, scheme: scheme, k: len(addrs), addrs: addrs, fx: fx, nfiles: nfiles, bySrv: map[*rt.Node]int{}}
	if x.Choice("hugekey", 20) == 19 {
		// a key with a portrait in it: answers and proofs of megabytes
		i := x.Choice("hugekey-which", len(fx))
		fx = append([]*Fixture(nil), fx...)
		size := x.Pick("hugekey-size", 3000, 5000000, 1100000, 300000, 40000)
		if len(fx) > 30 { // every bucket has room for it
			size = min(size, 300000)
		}
		fx[i] = portrait(fx[i], size)
		d.fx = fx
		x.Cover("a key with a portrait")
	}
	d.attrs = fixAttrs(fx)
	d.disk = rt.NewDisk()
	keys := toKeys(fx)
	for i := 0; i < nfiles; i++ {
		putKeyFile(d.disk, fmt.Sprintf("/work/data/sks/sks-%02d.pgp", i), keys[i*len(keys)/nfiles:(i+1)*len(keys)/nfiles])
	}
	// more files than the servers are told to use
	for i := 0; i < x.Choice("morefiles", 4)-1; i++ {
		var more []*Fixture
		for _, f := range x.someFixtures(3) {
			if d.find(f.Email) == nil {
				more = append(more, f)
			}
		}
		putKeyFile(d.disk, fmt.Sprintf("/work/data/sks/sks-%02d.pgp", nfiles+7*i), toKeys(more))
	}
	d.disk.Put("/work/config.toml", tomlFor(addrs))
	d.year = x.Epoch().Year()
	d.srv = make([]*rt.Node, d.k)
	return d
}

// portrait returns the key with a user attribute packet holding an image.
func portrait(f *Fixture, size int) *Fixture {
	g := *f
	g.of = f
	img := make([]byte, size)
	for i := range img {
		img[i] = byte(i*i>>7 ^ i)
	}
	be := func(n int) []byte { return []byte{0xff, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	g.Raw = append([]byte(nil), f.Raw...)
	g.Raw = append(g.Raw, 0xc0|17)
	g.Raw = append(g.Raw, be(size+6)...)
	g.Raw = append(g.Raw, be(size+1)...)
	g.Raw = append(g.Raw, 1)
	g.Raw = append(g.Raw, img...)
	return &g
}

// someAddrs returns addresses for k servers. Neither hosts nor ports follow
// the numbers of the servers, and servers may share a host unless they need
// one of their own.
func (x *Ctx) someAddrs(k int, own bool) []string {
	var a []string
	style := x.Choice("addrs", 4)
	if own && style == 3 {
		style = 2
	}
	h := []int{1, 2, 3, 4, 5, 6, 7}
	p := []int{50050, 50051, 50052, 50053, 50054, 50055, 50056}
	if style > 0 {
		r := x.RandFor("addrs")
		r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
		r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	}
	for i := 0; i < k; i++ {
		switch style {
		case 2:
			a = append(a, fmt.Sprintf("10.0.0.%d:50050", h[i]))
		case 3:
			a = append(a, fmt.Sprintf("10.0.0.1:%d", p[i]))
		default:
			a = append(a, fmt.Sprintf("10.0.0.%d:%d", h[i], p[i]))
		}
	}
	return a
}

// ownHosts says whether no two servers share a host.
func (d *deployment) ownHosts() bool {
	h := map[string]bool{}
	for _, a := range d.addrs {
		h[hostOf(a)] = true
	}
	return len(h) == len(d.addrs)
}

func (d *deployment) newServer(i int) *rt.Node {
	x := d.x
	n := x.NewNode(fmt.Sprintf("server%d", i))
	n.Host = hostOf(d.addrs[i])
	n.Loc = x.zone("zone")
	n.NCPU = x.Pick("ncpu", 2, 1, 3, 8)
	n.Skew = time.Duration(x.Choice("skew", 5)-2) * time.Hour
	n.Disk = d.disk.Clone()
	n.Args = []string{"server", fmt.Sprintf("-id=%d", i), "-scheme=" + d.scheme, fmt.Sprintf("-files=%d", d.nfiles)}
	if d.exper {
		n.Args = append(n.Args, "-experiment")
		if x.Choice("cores", 2) == 1 {
			n.Args = append(n.Args, fmt.Sprintf("-cores=%d", 1+x.Choice("ncores", 4)))
		}
	}
	if x.Choice("logfile", 4) == 3 {
		n.Args = append(n.Args, "-log=server.log")
	}
	d.srv[i] = n
	d.bySrv[n] = i
	return n
}

// start launches server i and does not wait.
func (d *deployment) start(i int) { d.newServer(i).Start(mainServer) }

// up starts all servers and waits until they serve.
func (d *deployment) up() {
	for i := range d.addrs {
		d.start(i)
	}
	d.waitUp()
}

func (d *deployment) waitUp() {
	x := d.x
	for i, a := range d.addrs {
		ok := x.WaitListen(a, 2*time.Hour)
		n := d.srv[i]
		x.Check(ok, "server-start", "server %d with %d keys does not come up: crash %q, fatal %q\n%s", i, len(d.fx), n.CrashMsg, n.FatalMsg, n.CrashStack)
	}
}

func (d *deployment) checkServers() {
	for i, n := range d.srv {
		if n == nil || n.Killed {
			continue
		}
		d.x.Check(n.Alive(), "server-gone", "server %d has ended: crash %q, fatal %q, exit code %d\n%s", i, n.CrashMsg, n.FatalMsg, n.ExitCode, n.CrashStack)
	}
}

// ---- keys ----

type keyID struct {
	fpr string
	ids []string
}

func (k keyID) String() string { return k.fpr + " " + strings.Join(k.ids, "; ") }

func idOf(e *openpgp.Entity) keyID {
	k := keyID{fpr: hex.EncodeToString(e.PrimaryKey.Fingerprint[:])}
	for n := range e.Identities {
		k.ids = append(k.ids, n)
	}
	sort.Strings(k.ids)
	return k
}

// idOfFixture computes the identity of a stored key without the code under
// test: the fingerprint is the hash of the first packet.
func idOfFixture(f *Fixture) keyID {
	b := f.Raw
	var body []byte
	switch {
	case b[0]&0xc0 == 0xc0 && b[1] < 192:
		body = b[2 : 2+int(b[1])]
	case b[0]&0xc0 == 0xc0 && b[1] < 224:
		body = b[3 : 3+(int(b[1])-192)<<8+int(b[2])+192]
	case b[0]&3 == 0:
		body = b[2 : 2+int(b[1])]
	case b[0]&3 == 1:
		body = b[3 : 3+int(b[1])<<8+int(b[2])]
	default:
		panic("fixture")
	}
	h := sha1.Sum(append([]byte{0x99, byte(len(body) >> 8), byte(len(body))}, body...))
	return keyID{fpr: hex.EncodeToString(h[:]), ids: f.IDs}
}

var armorRe = regexp.MustCompile(`(?s)-----BEGIN PGP PUBLIC KEY BLOCK-----.*?-----END PGP PUBLIC KEY BLOCK-----`)

// armored extracts the keys printed in s.
func armored(s string) ([]keyID, error) {
	var r []keyID
	for _, a := range armorRe.FindAllString(s, -1) {
		el, err := openpgp.ReadArmoredKeyRing(strings.NewReader(a))
		if err != nil {
			return nil, err
		}
		for _, e := range el {
			r = append(r, idOf(e))
		}
	}
	return r, nil
}

func (d *deployment) find(mail string) *Fixture {
	for _, f := range d.fx {
		if f.Email == mail {
			return f
		}
	}
	return nil
}

// someID draws an e-mail to look up: mostly one that is stored.
func (d *deployment) someID() string {
	x := d.x
	switch x.Choice("idkind", 5) {
	case 3:
		for _, f := range x.someFixtures(len(fixtures)) {
			if d.find(f.Email) == nil {
				return f.Email
			}
		}
	case 4:
		return x.PickS("absent", "nobody@nowhere.org", "x", "a@b.c", "alice", "@", "key not found@x.edu")
	}
	return d.fx[x.Choice("id", len(d.fx))].Email
}

// ---- one query of a user ----

// job is something a user of a deployment wants, and what may come out.
type job struct {
	d    *deployment
	mail string // point
	p    *pred
	what string
}

func (d *deployment) someJob() *job {
	x := d.x
	j := &job{d: d}
	if d.point() {
		j.mail = d.someID()
		j.what = "the key of " + strconv.Quote(j.mail)
		return j
	}
	for {
		j.p = x.somePred(d.attrs, x.Choice("pred", nPreds))
		if j.p.text != "" && !strings.HasPrefix(j.p.text, "-") {
			break
		}
		if x.C.Intn("again", 50) == 0 {
			j.p = &pred{kind: pEmail, text: "a@x.edu", what: "count a@x.edu"}
			break
		}
	}
	j.what = j.p.what
	return j
}

// checkKey judges what came out of a lookup.
func (j *job) checkKey(keys []keyID, err error, out string) {
	x := j.d.x
	x.Check(err == nil, "unreadable-key", "%s: an unreadable key came out: %v", j.what, err)
	f := j.d.find(j.mail)
	x.Check(f != nil, "invented-key", "%s is not stored, yet a key came out: %v", j.what, keys)
	x.Check(len(keys) == 1 && keys[0].String() == idOfFixture(f).String(), "wrong-key", "%s: got %v, want %v\n%s", j.what, keys, idOfFixture(f), out)
}

// checkCount judges a statistic.
func (j *job) checkCount(v uint64) {
	x := j.d.x
	want, ok := j.p.truth(j.d.attrs, j.d.year)
	x.Check(ok && v == want, "wrong-value", "%s over %d keys: got %d, want %d (defined: %v)", j.what, len(j.d.attrs), v, want, ok)
}

// defined says whether the job has a proper answer other than an error.
func (j *job) defined() bool {
	if j.p == nil {
		return j.d.find(j.mail) != nil
	}
	_, ok := j.p.truth(j.d.attrs, j.d.year)
	return ok
}

// ---- raw users, who speak to the servers with the generated client ----

var bigOpts = []grpc.CallOption{grpc.MaxCallRecvMsgSize(1 << 30), grpc.MaxCallSendMsgSize(1 << 30)}

// rpcInfo asks a server for its parameters.
func (x *Ctx) rpcInfo(cn *rt.Node, addr string) (*proto.DatabaseInfoResponse, error) {
	var resp *proto.DatabaseInfoResponse
	var err error
	r := cn.Call(3*time.Hour, func() {
		var conn *rt.GrpcClientConn
		conn, err = rt.GrpcDial(addr)
		if err != nil {
			return
		}
		ctx, c := rt.CtxWithTimeout(context.Background(), time.Hour)
		defer c()
		resp, err = proto.NewVPIRClient(conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{}, bigOpts...)
	})
	if !r.OK() && err == nil {
		err = errors.New("call: " + r.String())
	}
	return resp, err
}

// rpcAsk sends raw query bytes.
func (x *Ctx) rpcAsk(cn *rt.Node, addr string, q []byte, timeout time.Duration) ([]byte, error) {
	var resp *proto.QueryResponse
	var err error
	r := cn.Call(timeout+time.Hour, func() {
		var conn *rt.GrpcClientConn
		conn, err = rt.GrpcDial(addr)
		if err != nil {
			return
		}
		ctx, c := rt.CtxWithTimeout(context.Background(), timeout)
		defer c()
		resp, err = proto.NewVPIRClient(conn).Query(ctx, &proto.QueryRequest{Query: q}, bigOpts...)
	})
	if !r.OK() && err == nil {
		err = errors.New("call: " + r.String())
	}
	return resp.GetAnswer(), err
}

func infoFrom(a *proto.DatabaseInfoResponse) *database.Info {
	return &database.Info{NumRows: int(a.GetNumRows()), NumColumns: int(a.GetNumColumns()), BlockSize: int(a.GetBlockLength()), PIRType: a.GetPirType(),
		Merkle: &database.Merkle{Root: a.GetRoot(), ProofLen: int(a.GetProofLen())}}
}

// rawQuery is a job as messages, with the client that can decode the answers.
type rawQuery struct {
	*job
	qs [][]byte
	cl client.Client
	cn *rt.Node
}

// raw makes the messages for a job with the library client.
func (j *job) raw(cn *rt.Node, info *database.Info) *rawQuery {
	x := j.d.x
	q := &rawQuery{job: j, cn: cn}
	in := *info
	var err error
	r := cn.Call(time.Hour, func() {
		switch {
		case j.d.point():
			q.cl = client.NewPIR(pointRnd(0), &in)
			q.qs, err = q.cl.QueryBytes(be4(int(database.HashToIndex(j.mail, in.NumRows*in.NumColumns))), j.d.k)
		default:
			if j.d.auth() {
				q.cl = client.NewPredicateAPIR(pointRnd(0), &in)
			} else {
				q.cl = client.NewPredicatePIR(pointRnd(0), &in)
			}
			var b []byte
			b, err = j.p.encode()
			if err == nil {
				q.qs, err = q.cl.QueryBytes(b, j.d.k)
			}
		}
	})
	x.Check(r.OK() && err == nil && len(q.qs) == j.d.k, "query", "%s: %s %v", j.what, r, err)
	return q
}

// decode judges a full set of answers.
func (q *rawQuery) decode(ans [][]byte) {
	x := q.d.x
	var v interface{}
	var err error
	var key *openpgp.Entity
	var kerr error
	r := q.cn.Call(time.Hour, func() {
		v, err = q.cl.ReconstructBytes(cloneAll(ans))
		if err == nil && q.p == nil {
			key, kerr = pgp.RecoverKeyFromBlock(database.UnPadBlock(v.([]byte)), q.mail)
		}
	})
	x.Check(r.OK(), "reconstruct", "%s: %s\n%s", q.what, r, r.Stack)
	if q.p != nil {
		if err != nil {
			x.Check(!q.defined(), "rejected", "%s: honest answers rejected: %v", q.what, err)
			return
		}
		q.checkCount(uint64(v.(uint32)))
		return
	}
	x.Check(err == nil, "rejected", "%s: honest answers rejected: %v", q.what, err)
	if kerr != nil {
		x.Check(!q.defined(), "not-found", "%s: not found: %v", q.what, kerr)
		return
	}
	q.checkKey([]keyID{idOf(key)}, nil, "")
}

// ---- the command-line client ----

type cliRun struct {
	n   *rt.Node
	j   *job
	cfg int
}

func (j *job) args() []string {
	d := j.d
	a := []string{"client", "-scheme=" + d.scheme}
	if j.p == nil {
		return append(a, "-id="+j.mail)
	}
	p := j.p
	a = append(a, "-id="+p.text)
	fs := func() {
		if p.info.FromStart != 0 {
			a = append(a, fmt.Sprintf("-from-start=%d", p.info.FromStart))
		}
		if p.info.FromEnd != 0 {
			a = append(a, fmt.Sprintf("-from-end=%d", p.info.FromEnd))
		}
	}
	switch p.kind {
	case pAlgo:
		a = append(a, "-target=algo")
	case pTime:
		a = append(a, "-target=creation")
	case pAnd, pAndWhole:
		a = append(a, "-and")
	case pAvg, pAvgWhole:
		a = append(a, "-and", "-avg")
		fs()
	default:
		a = append(a, "-target=email")
		fs()
	}
	return a
}

// forCLI rewrites a job into one the command line can express.
func (j *job) forCLI() *job {
	if j.p != nil && (j.p.kind == pAnd || j.p.kind == pAndWhole) {
		// the conjunction always matches the whole text at the end
		j.p.kind = pAnd
		j.p.info.FromStart, j.p.info.FromEnd = 0, len(j.p.text)
		j.p.what = fmt.Sprintf("count year and suffix %q", j.p.text)
		j.what = j.p.what
	}
	return j
}

// cli starts the command-line client.
func (d *deployment) cli(name string, j *job) *cliRun {
	x := d.x
	n := x.NewNode(name)
	n.Host = "10.0.1.1"
	n.Disk = rt.NewDisk()
	cfg := "/work/config.toml"
	if x.Choice("cfgenv", 3) == 2 {
		cfg = "/etc/vpir.toml"
		n.Env["VPIR_CONFIG"] = cfg
	}
	n.Disk.Put(cfg, tomlFor(d.addrs))
	n.NCPU = x.Pick("ncpu", 2, 1, 8)
	n.Loc = x.zone("czone")
	n.Skew = time.Duration(x.Choice("cskew", 3)-1) * time.Hour
	n.Args = j.args()
	switch {
	case j.p == nil && x.Choice("stdin", 6) == 5 && j.mail != "":
		// the identity is typed in
		n.Args = []string{"client", "-scheme=" + d.scheme}
		n.SetStdin(j.mail + "\n")
	case d.cliExper:
		if x.Choice("exper", 8) != 7 {
			n.Args = append(n.Args, "-experiment")
			if x.Choice("clicores", 2) == 1 {
				n.Args = append(n.Args, fmt.Sprintf("-cores=%d", 1+x.Choice("ncores", 8)))
			}
		}
	case x.Choice("exper", 6) == 5:
		n.Args = append(n.Args, "-experiment", "-cores=1")
	}
	n.Start(mainCLI)
	return &cliRun{n: n, j: j}
}

var numRe = regexp.MustCompile(`(?m)^(\d+)$`)

// finish waits for the client and judges what it did. mustWork: nothing went
// wrong, so it has to succeed if there is something to find.
func (c *cliRun) finish(mustWork bool) {
	d := c.j.d
	x := d.x
	n := c.n
	ok := n.WaitExit(6 * time.Hour)
	x.Check(ok, "client-hangs", "the command-line client for %s has not ended after 6 hours of simulated time", c.j.what)
	if n.Killed {
		return
	}
	out := n.Out.String()
	x.Check(!n.Crashed, "client-crash", "the command-line client for %s crashed: %s\n%s", c.j.what, n.CrashMsg, n.CrashStack)
	printed := false
	if c.j.p == nil {
		keys, err := armored(out)
		if strings.Contains(out, "BEGIN PGP") {
			printed = true
			c.j.checkKey(keys, err, "")
		}
	} else {
		for _, m := range numRe.FindAllStringSubmatch(out, -1) {
			v, _ := strconv.ParseUint(m[1], 10, 64)
			printed = true
			c.j.checkCount(v)
		}
	}
	if n.ExitCode == 0 {
		x.Check(printed, "silent-success", "the client for %s exits with 0 and prints no result: %q %q", c.j.what, lastPart(out), n.Err)
		x.Count("cli-success")
	} else {
		x.Count("cli-error")
		if mustWork && !x.stalled() {
			x.Check(!c.j.defined(), "fails", "the client for %s fails (exit code %d: %s %s) though nothing went wrong", c.j.what, n.ExitCode, n.FatalMsg, lastPart(out))
		}
	}
	x.Nontrivial()
}

func lastPart(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

// ---- faults ----

// stalled reports whether some process was stalled in this run so far.
func (x *Ctx) stalled() bool { return x.Sim.Counters["fault:stall"] > 0 }

// drawNet draws a fault plan for the network; true if it can lose messages or
// delay them beyond the clients' patience.
func (x *Ctx) drawNet() bool {
	n := x.Net()
	n.LatMax = []time.Duration{2 * time.Millisecond, 0, 200 * time.Millisecond, 2 * time.Second}[x.Choice("netlat", 4)]
	switch x.Choice("netfault", 5) {
	case 1:
		n.StallPct, n.StallMax = 20, 3*time.Second
	case 2:
		n.ResetPct = 10
		return true
	case 3:
		n.LostPct = 10
		return true
	case 4:
		n.StallPct, n.StallMax = 20, 20*time.Minute
		n.ResetPct, n.LostPct = 5, 5
		return true
	}
	return false
}

func (x *Ctx) healNet() {
	n := x.Net()
	n.LatMax, n.StallPct, n.ResetPct, n.LostPct = 2*time.Millisecond, 0, 0, 0
	n.Blocked = nil
	n.Lie = nil
	x.KickNet()
}

func (x *Ctx) within(label string, d time.Duration) time.Duration {
	return time.Duration(x.Choice(label, 10000)) * d / 10000
}

// schemes of the deployed programs
var schemes = []string{"pointVPIR", "pointPIR", "complexVPIR", "complexPIR"}

func (x *Ctx) someDeployment() *deployment {
	x.setDate()
	sc := schemes[x.Choice("scheme", 4)]
	k := 2
	if strings.HasPrefix(sc, "point") {
		k = x.Pick("servers", 2, 2, 3, 4, 5)
	}
	n := x.Pick("nkeys", 12, 10, 21, 35)
	d := x.prepare(sc, x.someAddrs(k, false), x.someFixtures(n), x.Pick("nfiles", 1, 2, 3))
	return d
}

// watchShares records which query bytes each client sends to which server, and
// which of them arrive.
type shares struct {
	got  map[*rt.Node]map[int][][]byte    // arrived, by server
	sent map[*rt.Node]map[string][][]byte // sent, by address
}

func (d *deployment) watchShares() *shares {
	w := &shares{got: map[*rt.Node]map[int][][]byte{}, sent: map[*rt.Node]map[string][][]byte{}}
	query := func(method string, req []byte) []byte {
		var q proto.QueryRequest
		if method != methodQuery || gproto.Unmarshal(req, &q) != nil {
			return nil
		}
		return q.Query
	}
	d.x.Net().OnSend = func(from *rt.Node, target, method string, req []byte) {
		if q := query(method, req); q != nil {
			if w.sent[from] == nil {
				w.sent[from] = map[string][][]byte{}
			}
			w.sent[from][target] = append(w.sent[from][target], q)
		}
	}
	d.x.Net().OnRequest = func(from, to *rt.Node, method string, req []byte) {
		if q := query(method, req); q != nil {
			if w.got[from] == nil {
				w.got[from] = map[int][][]byte{}
			}
			i := d.bySrv[to]
			w.got[from][i] = append(w.got[from][i], q)
		}
	}
	return w
}

// check: a server is sent no share of a query but its own, whatever happens.
// (The same share may be sent to it once more.)
func (w *shares) check(x *Ctx, n *rt.Node, what string) {
	seen := map[string]string{}
	var targets []string
	for t := range w.sent[n] {
		targets = append(targets, t)
	}
	sort.Strings(targets)
	for _, t := range targets {
		l := w.sent[n][t]
		for _, q := range l {
			x.Check(bytes.Equal(q, l[0]), "two-shares", "%s: the server at %s was sent two different shares", what, t)
		}
		if len(l[0]) < 16 {
			continue // short shares coincide by chance
		}
		o, dup := seen[string(l[0])]
		x.Check(!dup, "same-share", "%s: the servers at %s and %s were sent the same share", what, o, t)
		seen[string(l[0])] = t
	}
}

// forget starts anew, for the next query of the same program.
func (w *shares) forget(n *rt.Node) {
	delete(w.sent, n)
	delete(w.got, n)
}

// c12 runs the command-line client against the deployed servers.
func c12(x *Ctx) {
	d := x.someDeployment()
	x.Cover("%s k=%d", d.scheme, d.k)
	w := d.watchShares()
	trouble := x.drawNet()
	late := x.Choice("late", 5) == 4
	if late {
		// the client is started before some server
		x.Count("fault:late-server")
		for i := range d.addrs {
			i := i
			dl := x.within("lateby", 15*time.Second)
			d.newServer(i)
			x.GoOn(x.Root(), "starter", func() { x.Sleep(dl); d.srv[i].Start(mainServer) })
		}
		trouble = true
	} else {
		d.up()
	}
	if x.Choice("kill", 6) == 5 {
		v := x.Choice("victim", d.k)
		dl := x.within("killat", 2*time.Second)
		back := x.Choice("restart", 2) == 1
		trouble = true
		x.Count("fault:server-kill")
		x.GoOn(x.Root(), "killer", func() {
			x.Sleep(dl)
			if !d.srv[v].Alive() {
				return
			}
			d.srv[v].Kill()
			if back && !late {
				x.Sleep(x.within("down", 4*time.Second))
				d.srv[v].Start(mainServer)
			}
		})
	}
	if x.Choice("part", 8) == 7 {
		v := x.Choice("partvictim", d.k)
		from := x.Now() + int64(x.within("partat", time.Second))
		to := from + int64(x.within("partfor", 30*time.Second))
		trouble = true
		x.Net().Blocked = func(a, b *rt.Node) bool {
			return x.Now() >= from && x.Now() < to && (a == d.srv[v] || b == d.srv[v])
		}
		x.GoOn(x.Root(), "healer", func() { x.Sleep(time.Duration(to - x.Now())); x.KickNet() })
	}
	nc := x.Pick("clients", 1, 1, 2, 4)
	nr := x.Pick("rounds", 1, 2)
	var acts []func()
	for c := 0; c < nc; c++ {
		c := c
		acts = append(acts, func() {
			for r := 0; r < nr; r++ {
				j := d.someJob().forCLI()
				run := d.cli(fmt.Sprintf("client%d.%d", c, r), j)
				run.finish(false)
				if run.n.ExitCode != 0 && !trouble && !x.stalled() {
					x.Check(!j.defined(), "fails", "the client for %s fails (exit code %d: %s) though nothing went wrong", j.what, run.n.ExitCode, run.n.FatalMsg)
				}
				w.check(x, run.n, j.what)
				x.Cover("%s defined=%v", d.scheme, j.defined())
			}
		})
	}
	x.Par(acts...)
	if !late {
		d.checkServers()
	}
	x.Cover("clients=%d rounds=%d trouble=%v", nc, nr, trouble)
}

// alter changes an answer as a lying server might.
func (x *Ctx) alter(a []byte) []byte {
	a = append([]byte{}, a...)
	switch x.Choice("alter", 8) {
	case 0:
		if len(a) > 0 {
			a[x.Choice("at", len(a))] ^= byte(1 << x.Choice("bit", 8))
		}
	case 1:
		return a[:x.Choice("cut", len(a)+1)]
	case 2:
		return append(a, randBytes(x.RandFor("ext"), 1+x.Choice("extn", 40))...)
	case 3:
		return randBytes(x.RandFor("rand"), len(a))
	case 4:
		return nil
	case 5:
		for i := range a {
			a[i] = 0
		}
	case 6:
		return append(a, a...)
	case 7:
		if len(a) >= 4 {
			a[x.Choice("w", len(a)/4)*4]++
		}
	}
	return a
}

// c12lying: one of the servers lies to a client of an authenticated scheme.
func c12lying(x *Ctx) {
	x.setDate()
	sc := x.PickS("scheme", "pointVPIR", "complexVPIR")
	k := 2
	if sc == "pointVPIR" {
		k = x.Pick("servers", 2, 3, 4)
	}
	d := x.prepare(sc, x.someAddrs(k, false), x.someFixtures(x.Pick("nkeys", 12, 20, 30)), x.Pick("nfiles", 1, 2))
	d.up()
	d.lie(x.Choice("liar", k))
	x.Cover("%s k=%d", sc, k)
	for r := 0; r < x.Pick("rounds", 1, 2, 3); r++ {
		j := d.someJob().forCLI()
		d.cli(fmt.Sprintf("client%d", r), j).finish(false)
	}
	d.checkServers()
}

// lie makes server v alter its answers on the wire; earlier answers are
// replayed at times.
func (d *deployment) lie(v int) {
	x := d.x
	var old [][]byte
	x.Net().Lie = func(from, to *rt.Node, method string, reply []byte, err error) ([]byte, error) {
		if to != d.srv[v] || method != methodQuery || err != nil {
			return reply, err
		}
		var r proto.QueryResponse
		if gproto.Unmarshal(reply, &r) != nil {
			return reply, err
		}
		orig := append([]byte{}, r.Answer...)
		switch x.Choice("lie", 7) {
		case 0, 1, 2:
			x.Count("fault:altered-answer")
			r.Answer = x.alter(r.Answer)
		case 3:
			if len(old) > 0 {
				x.Count("fault:replayed-answer")
				r.Answer = old[x.Choice("old", len(old))]
			}
		case 4, 5:
			x.Count("fault:refused")
			// what a client makes of an error must not depend on its text
			return nil, status.Error([]codes.Code{codes.Internal, codes.Unknown, codes.NotFound, codes.Canceled}[x.Choice("code", 4)],
				x.PickS("error", "no", "no key with the given email id is found", "no key with the given email id is found", "key not found in block", "EOF", "%d%s%!", ""))
		}
		old = append(old, orig)
		b, _ := gproto.Marshal(&r)
		return b, nil
	}
}

// c07faults: servers fail, refuse, stall and disappear while the command-line
// client or the front end ask; no server may come to hold another's share.
func c07faults(x *Ctx) {
	var d *deployment
	var front *webWorld
	if x.Choice("front", 3) == 2 {
		front = x.webServers()
		d = front.pt
	} else {
		d = x.someDeployment()
		d.up()
	}
	w := d.watchShares()
	all := d.srv
	if front != nil {
		front.startFront()
		all = append(append([]*rt.Node{}, front.pt.srv...), front.cx.srv...)
	}
	x.Cover("%s k=%d front=%v", d.scheme, d.k, front != nil)
	n := x.Net()
	var stopping *rt.Node
	plan := func() {
		v := all[x.Choice("victim", len(all))]
		n.LatMax = []time.Duration{2 * time.Millisecond, 0, 200 * time.Millisecond}[x.Choice("netlat", 3)]
		switch x.Choice("plan", 7) {
		case 0: // one is down
			v.Kill()
			x.Count("fault:server-kill")
		case 1: // some refuse, with any error
			pct := x.Pick("refusepct", 30, 50, 100)
			sel := x.Choice("refusesel", 2) == 0
			n.Lie = func(from, to *rt.Node, method string, reply []byte, err error) ([]byte, error) {
				if method != methodQuery || sel && to != v || !x.Chance("refuse", pct) {
					return reply, err
				}
				x.Count("fault:refused")
				return nil, status.Error([]codes.Code{codes.Internal, codes.Unknown, codes.Unavailable, codes.ResourceExhausted, codes.Aborted, codes.DeadlineExceeded, codes.Canceled}[x.Choice("code", 7)], "no")
			}
		case 2:
			n.ResetPct = x.Pick("resetpct", 20, 50)
		case 3:
			n.LostPct = x.Pick("lostpct", 20, 50)
		case 4:
			n.StallPct, n.StallMax = 40, 3*time.Hour
		case 5: // cut off
			n.Blocked = func(a, b *rt.Node) bool { return a == v || b == v }
			x.Count("fault:partition")
		case 6: // it goes down in the middle
			dl := x.within("killat", []time.Duration{2 * time.Millisecond, 300 * time.Millisecond}[x.Choice("killspan", 2)])
			x.GoOn(x.Root(), "killer", func() {
				x.Sleep(dl)
				if !v.Alive() {
					return
				}
				x.Count("fault:server-kill")
				if x.Choice("gracefully", 2) == 0 {
					v.Kill()
				} else {
					v.Signal(syscall.SIGTERM)
					stopping = v
				}
			})
		}
	}
	for r := 0; r <= x.Choice("rounds", 3); r++ {
		plan()
		var who *rt.Node
		what := "the front end"
		if front != nil {
			who = front.front
			front.visit(24 * time.Hour)
			x.Sleep(time.Hour) // whatever is still to be sent is sent
		} else {
			j := d.someJob().forCLI()
			what = j.what
			run := d.cli(fmt.Sprintf("client%d", r), j)
			run.n.WaitExit(24 * time.Hour)
			who = run.n
		}
		w.check(x, who, what)
		if len(w.sent[who]) > 0 {
			x.Nontrivial()
		}
		w.forget(who)
		x.Sleep(time.Second)
		x.healNet()
		if stopping != nil {
			stopping.WaitExit(24 * time.Hour)
			stopping = nil
		}
		for _, v := range all {
			if !v.Alive() {
				v.Start(mainServer)
			}
		}
		d.waitUp()
		if front != nil {
			front.cx.waitUp()
		}
	}
}

// c07deployed looks at what the command-line client sends.
func c07deployed(x *Ctx) {
	d := x.someDeployment()
	d.up()
	w := d.watchShares()
	x.Net().OnReply = nil
	j := d.someJob().forCLI()
	var runs []*cliRun
	m := int64(x.Choice("mathseed", 1000))
	for i := 0; i < 2; i++ {
		// two invocations at the same moment with the same ordinary randomness,
		// and cryptographic randomness of their own
		n := x.NewNode(fmt.Sprintf("client%d", i))
		n.Disk = rt.NewDisk()
		n.Disk.Put("/work/config.toml", tomlFor(d.addrs))
		n.Args = j.args()
		n.SeedRand(m, int64(1000+i+x.Choice("cseed", 1000)*2))
		n.Start(mainCLI)
		runs = append(runs, &cliRun{n: n, j: j})
	}
	for _, r := range runs {
		r.finish(true)
		if r.n.ExitCode == 0 {
			x.Check(len(w.got[r.n]) == d.k, "shares", "%s: %d of %d servers were asked", j.what, len(w.got[r.n]), d.k)
		}
		w.check(x, r.n, j.what)
	}
	secret := j.mail
	if j.p != nil {
		secret = j.p.text
	}
	for i := range d.addrs {
		a, b := w.got[runs[0].n][i], w.got[runs[1].n][i]
		if len(a) != 1 || len(b) != 1 {
			continue
		}
		x.Nontrivial()
		// (messages of the predicate schemes vary by some bytes, since random
		// words take as many bytes as they need)
		x.Check(len(a[0])-len(b[0]) <= 200 && len(b[0])-len(a[0]) <= 200, "length", "%s: queries of %d and %d bytes", j.what, len(a[0]), len(b[0]))
		x.Check(len(a[0]) < 16 || !bytes.Equal(a[0], b[0]), "repeated", "%s: two runs of the client send server %d the same query", j.what, i)
		if len(secret) >= 5 {
			for _, q := range [][]byte{a[0], b[0]} {
				x.Check(!bytes.Contains(q, []byte(secret)), "plain", "%s: the text travels in the clear to server %d", j.what, i)
			}
		}
	}
	x.Cover("%s k=%d", d.scheme, d.k)
}

// ---- C08: concurrent requests ----

func (x *Ctx) answersAlone(d *deployment, qs []*rawQuery, addr int) [][]byte {
	var out [][]byte
	for _, q := range qs {
		a, err := x.rpcAsk(x.NewNode("alone").Light(), d.addrs[addr], q.qs[addr], time.Hour)
		x.Check(err == nil, "alone-error", "server %d alone refuses %s: %v", addr, q.what, err)
		out = append(out, a)
	}
	return out
}

// c08deployed: many users at once, each gets what it would get alone.
func c08deployed(x *Ctx) {
	d := x.someDeployment()
	if x.Choice("simprog", 4) == 3 {
		c08sim(x)
		return
	}
	d.up()
	x.Net().LatMax = []time.Duration{0, 2 * time.Millisecond, 200 * time.Millisecond}[x.Choice("netlat", 3)]
	c08storm(x, d)
}

func c08storm(x *Ctx, d *deployment) {
	cn := x.NewNode("info").Light()
	resp, err := x.rpcInfo(cn, d.addrs[0])
	x.Check(err == nil, "info", "database info: %v", err)
	info := infoFrom(resp)
	nu := x.Pick("users", 2, 3, 5, 14)
	x.Cover("%s k=%d users=%d", d.scheme, d.k, nu)
	var qs []*rawQuery
	for u := 0; u < nu; u++ {
		n := x.NewNode(fmt.Sprintf("user%d", u)).Light()
		qs = append(qs, d.someJob().raw(n, info))
	}
	got := make([][][]byte, nu)
	var acts []func()
	for u := range qs {
		u := u
		got[u] = make([][]byte, d.k)
		for i := range d.addrs {
			i := i
			dl := x.within("when", 3*time.Millisecond)
			acts = append(acts, func() {
				x.Sleep(dl)
				a, err := x.rpcAsk(x.NewNode("u").Light(), d.addrs[i], qs[u].qs[i], time.Hour)
				x.Check(err == nil, "error", "%s: server %d: %v", qs[u].what, i, err)
				got[u][i] = a
			})
		}
	}
	// others only ask for the parameters
	for c := 0; c < x.Choice("infos", 3); c++ {
		acts = append(acts, func() {
			i := x.Choice("infoat", d.k)
			r, err := x.rpcInfo(x.NewNode("i").Light(), d.addrs[i])
			x.Check(err == nil && gproto.Equal(r, resp), "info-changed", "database info: %v %v, before %v", r, err, resp)
		})
	}
	x.Par(acts...)
	d.checkServers()
	x.Nontrivial()
	for i := range d.addrs {
		alone := x.answersAlone(d, qs, i)
		for u := range qs {
			x.Check(bytes.Equal(alone[u], got[u][i]), "influenced", "%s: server %d answers %s among %d users and %s alone", qs[u].what, i, short(got[u][i]), nu, short(alone[u]))
		}
	}
	for u := range qs {
		if d.sim {
			qs[u].decodeSim(got[u])
		} else {
			qs[u].decode(got[u])
		}
	}
	d.checkServers()
}

func (q *rawQuery) decodeSim(ans [][]byte) {
	x := q.d.x
	var err error
	r := q.cn.Call(time.Hour, func() { _, err = q.cl.ReconstructBytes(cloneAll(ans)) })
	x.Check(r.OK() && err == nil, "rejected", "%s: %s %v", q.what, r, err)
}

// c08sim: the servers of the simulations directory.
func c08sim(x *Ctx) {
	k := x.Pick("simservers", 2, 3, 4)
	d := &deployment{x: x, k: k, addrs: x.someAddrs(k, true), sim: true, bySrv: map[*rt.Node]int{}, srv: make([]*rt.Node, k)}
	d.scheme = x.PickS("simscheme", "pir-classic", "pir-merkle")
	d.fx = x.someFixtures(5)
	rows := x.Pick("simrows", 1, 2)
	for i := range d.addrs {
		d.simServer(i, rows)
	}
	d.waitUp()
	x.Cover("simulations %s k=%d", d.scheme, k)
	c08storm(x, d)
	d.stopAll()
}

func (d *deployment) simServer(i, rows int) {
	n := d.x.NewNode(fmt.Sprintf("simserver%d", i))
	n.Host = hostOf(d.addrs[i])
	n.Disk = rt.NewDisk()
	n.Disk.Put("/work/sid", []byte(fmt.Sprintf("%d\n", i)))
	n.Disk.Put("/config.toml", tomlFor(d.addrs))
	n.Args = []string{"server", "-scheme=" + d.scheme, "-dbLen=8192", "-elemBitSize=8", fmt.Sprintf("-nRows=%d", rows), "-blockLen=16", fmt.Sprintf("-servers=%d", d.k)}
	d.srv[i] = n
	d.bySrv[n] = i
	n.Start(mainMSrv)
}

// simUp starts the servers of the simulations directory.
func (x *Ctx) simUp() *deployment {
	x.setDate()
	k := x.Pick("simservers", 2, 3, 4)
	d := &deployment{x: x, k: k, addrs: x.someAddrs(k, true), sim: true, bySrv: map[*rt.Node]int{}, srv: make([]*rt.Node, k)}
	d.scheme = x.PickS("simscheme", "pir-classic", "pir-merkle")
	d.simRows = x.Pick("simrows", 1, 2)
	for i := range d.addrs {
		d.simServer(i, d.simRows)
	}
	return d
}

// simColumns returns the columns of the database these servers serve, each as
// the concatenation of its blocks, and the size of a block.
func (d *deployment) simColumns() ([][]byte, int) {
	x := d.x
	var db *database.Bytes
	r := x.NewNode("reference").Call(time.Hour, func() {
		key := new(utils.PRGKey)
		copy(key[:], "asuperstrong16db")
		rows := 1
		if d.simRows != 1 {
			rows = 8
		}
		if d.scheme == "pir-merkle" {
			db = database.CreateRandomMerkle(utils.NewPRG(key), 8192, rows, 16)
		} else {
			db = database.CreateRandomBytes(utils.NewPRG(key), 8192, rows, 16)
		}
	})
	x.Check(r.OK(), "reference", "%s", r)
	bs := db.BlockSize
	cols := make([][]byte, db.NumColumns)
	for c := range cols {
		for r := 0; r < db.NumRows; r++ {
			o := (r*db.NumColumns + c) * bs
			cols[c] = append(cols[c], db.Entries[o:o+bs]...)
		}
	}
	return cols, bs
}

// simClient starts the client of the experiments.
func (d *deployment) simClient(name string, reps, blocks int) *rt.Node {
	x := d.x
	n := x.NewNode(name)
	n.Host = "10.0.1.1"
	n.Disk = rt.NewDisk()
	cfg := "/config.toml"
	if x.Choice("cfgenv", 3) == 2 {
		cfg = "/etc/vpir.toml"
		n.Env["VPIR_CONFIG"] = cfg
	}
	n.Disk.Put(cfg, tomlFor(d.addrs))
	n.Disk.Put("/work/client", nil) // the program lies in its working directory
	n.NCPU = x.Pick("ncpu", 2, 1, 8)
	n.Args = []string{"client", "-scheme=" + d.scheme, fmt.Sprintf("-repetitions=%d", reps), "-elemBitSize=8"}
	if d.k != 2 || x.Choice("kflag", 2) == 1 {
		n.Args = append(n.Args, fmt.Sprintf("-numServers=%d", d.k))
	}
	if x.Choice("logfile", 4) == 3 {
		n.Args = append(n.Args, "-logFile=client.log")
	}
	bs := 16
	if d.scheme == "pir-merkle" {
		bs = d.simBlock
	}
	n.Args = append(n.Args, fmt.Sprintf("-bitsToRetrieve=%d", 8*(bs*blocks-x.Choice("part", bs))))
	n.Start(mainMCli)
	return n
}

// c12experPredicate runs the client of the experiments with a predicate scheme.
// Its own servers always hold 100000 keys, too many for this; those of cmd/grpc
// speak the same protocol.
func c12experPredicate(x *Ctx) {
	x.setDate()
	d := x.prepare(x.PickS("scheme", "complexVPIR", "complexPIR"), x.someAddrs(2, false), x.someFixtures(x.Pick("nkeys", 5, 1, 20)), 1)
	trouble := x.drawNet()
	d.up()
	if d.auth() && x.Choice("lying", 3) == 2 {
		d.lie(x.Choice("liar", d.k))
		trouble = true
	}
	w := d.watchShares()
	reps := x.Pick("reps", 1, 2, 3)
	n := x.NewNode("client")
	n.Host = "10.0.1.1"
	n.Disk = rt.NewDisk()
	n.Disk.Put("/config.toml", tomlFor(d.addrs))
	n.Disk.Put("/work/client", nil)
	n.Args = []string{"client", "-scheme=fss-auth", fmt.Sprintf("-repetitions=%d", reps), fmt.Sprintf("-inputSize=%d", x.Pick("input", 1, 2, 4, 8, 32))}
	if !d.auth() {
		n.Args[1] = "-scheme=fss-classic"
	}
	n.Start(mainMCli)
	x.Check(n.WaitExit(24*time.Hour), "client-hangs", "the experiments' client has not ended after a day of simulated time")
	x.Check(!n.Crashed, "client-crash", "the experiments' client crashed: %s\n%s", n.CrashMsg, n.CrashStack)
	x.Nontrivial()
	x.Cover("%s k=%d reps=%d trouble=%v", d.scheme, d.k, reps, trouble)
	if n.ExitCode != 0 {
		x.Check(trouble || x.stalled(), "fails", "the experiments' client fails (exit code %d: %s) though nothing went wrong", n.ExitCode, n.FatalMsg)
		x.Count("exper-error")
		return
	}
	x.Count("exper-success")
	for i := range d.addrs {
		x.Check(len(w.got[n][i]) == reps, "queries", "server %d was sent %d queries, want %d", i, len(w.got[n][i]), reps)
	}
	d.checkServers()
}

// c12exper runs the client of the experiments against its servers.
func c12exper(x *Ctx) {
	if x.Choice("expred", 3) == 2 {
		c12experPredicate(x)
		return
	}
	d := x.simUp()
	trouble := x.drawNet()
	d.waitUp()
	cols, bs := d.simColumns()
	d.simBlock = bs
	type exchange struct {
		answers [][]byte
		asked   []int
	}
	runs := map[*rt.Node]*exchange{}
	lying := d.scheme == "pir-merkle" && x.Choice("lying", 3) == 2
	if lying {
		d.lie(x.Choice("liar", d.k))
		trouble = true
	}
	w := d.watchShares()
	x.Net().OnReply = func(from, to *rt.Node, method string, reply []byte, err error) {
		e := runs[from]
		if e == nil || method != methodQuery || err != nil {
			return
		}
		var r proto.QueryResponse
		if gproto.Unmarshal(reply, &r) != nil {
			return
		}
		i := d.bySrv[to]
		n := e.asked[i]
		e.asked[i]++
		for len(e.answers) <= n {
			e.answers = append(e.answers, nil)
		}
		a := e.answers[n]
		for len(a) < len(r.Answer) {
			a = append(a, 0)
		}
		for p, b := range r.Answer {
			a[p] ^= b
		}
		e.answers[n] = a
	}
	if x.Choice("kill", 6) == 5 {
		v := x.Choice("victim", d.k)
		dl := x.within("killat", 200*time.Millisecond)
		trouble = true
		x.Count("fault:server-kill")
		x.GoOn(x.Root(), "killer", func() {
			x.Sleep(dl)
			if d.srv[v].Alive() {
				d.srv[v].Kill()
			}
		})
	}
	nc := x.Pick("clients", 1, 1, 2, 3)
	x.Cover("%s k=%d rows=%d clients=%d lying=%v trouble=%v", d.scheme, d.k, d.simRows, nc, lying, trouble)
	var acts []func()
	for c := 0; c < nc; c++ {
		c := c
		reps, blocks := x.Pick("reps", 1, 2, 3), x.Pick("blocks", 1, 2, 5)
		acts = append(acts, func() {
			// (the node is known only after its start; nothing is asked before
			// it has connected, which takes simulated time)
			n := d.simClient(fmt.Sprintf("client%d", c), reps, blocks)
			e := &exchange{asked: make([]int, d.k)}
			runs[n] = e
			x.Check(n.WaitExit(24*time.Hour), "client-hangs", "the experiments' client has not ended after a day of simulated time")
			if n.Killed {
				return
			}
			x.Check(!n.Crashed, "client-crash", "the experiments' client crashed: %s\n%s", n.CrashMsg, n.CrashStack)
			x.Nontrivial()
			if n.ExitCode != 0 {
				x.Check(trouble || x.stalled(), "fails", "the experiments' client fails (exit code %d: %s) though nothing went wrong", n.ExitCode, n.FatalMsg)
				x.Count("exper-error")
				return
			}
			x.Count("exper-success")
			first := -1
			for q := 0; q < reps*blocks; q++ {
				for i, m := range w.got[n] {
					x.Check(len(m) == reps*blocks, "queries", "server %d was sent %d queries, want %d", i, len(m), reps*blocks)
				}
				x.Check(q < len(e.answers), "answers", "only %d of %d queries were answered, yet the client succeeds", len(e.answers), reps*blocks)
				seen := map[string]int{}
				for i := range d.addrs {
					s := w.got[n][i][q]
					j, dup := seen[string(s)]
					x.Check(!dup || len(s) < 16, "same-share", "query %d: servers %d and %d were sent the same share", q, i, j)
					seen[string(s)] = i
				}
				// the answers together are one column, and the columns follow
				// each other
				a := e.answers[q]
				at := -1
				for c := range cols {
					if len(a) == len(cols[c]) && bytes.Equal(a, cols[c]) || lying && d.simRows == 1 && len(a) >= bs && bytes.Equal(a[:bs], cols[c][:bs]) {
						at = c
					}
				}
				if lying && d.simRows != 1 {
					continue // changes of blocks not wanted are of no consequence
				}
				x.Check(at >= 0, "wrong-answer", "%s: the answers to query %d of %d are not what is stored, yet the client succeeds", d.scheme, q, reps*blocks)
				if q == 0 {
					first = at
				}
				x.Check(at == (first+q%blocks)%len(cols), "wrong-block", "%s: query %d retrieves column %d, want %d", d.scheme, q, at, (first+q%blocks)%len(cols))
			}
		})
	}
	x.Par(acts...)
}

// stopAll ends the servers with a signal and checks that they end well.
func (d *deployment) stopAll() {
	x := d.x
	for i, n := range d.srv {
		if n.Alive() {
			x.Check(n.HasSignalHandler(syscall.SIGTERM), "no-handler", "server %d does not handle the termination signal", i)
			n.Signal(syscall.SIGTERM)
		}
	}
	for i, n := range d.srv {
		ok := n.WaitExit(2 * time.Hour)
		x.Check(ok, "does-not-stop", "server %d has not ended two hours after the termination signal", i)
		if n.Killed {
			continue
		}
		x.Check(!n.Crashed && n.ExitCode == 0, "bad-stop", "server %d ends with code %d: crash %q fatal %q\n%s", i, n.ExitCode, n.CrashMsg, n.FatalMsg, n.CrashStack)
	}
}

// ---- C09: hostile requests ----

// mangle makes a malformed query out of well-formed ones.
func (x *Ctx) mangle(good [][]byte) []byte {
	q := append([]byte{}, good[x.Choice("goodq", len(good))]...)
	switch x.Choice("mangle", 12) {
	case 0:
		return nil
	case 1:
		return q[:x.Choice("cut", len(q)+1)]
	case 2:
		return randBytes(x.RandFor("junk"), x.Pick("junklen", 1, 2, 3, 7, 16, 17, 100, 5000))
	case 3:
		return append(q, randBytes(x.RandFor("ext"), 1+x.Choice("extn", 100))...)
	case 4, 5, 6:
		for i := 0; i <= x.Choice("flips", 6); i++ {
			if len(q) > 0 {
				q[x.Choice("at", len(q))] ^= byte(1 << x.Choice("bit", 8))
			}
		}
	case 7:
		if len(q) > 0 {
			q[x.Choice("at", len(q))] = byte(x.Pick("val", 0xff, 0, 0x80, 0x7f, 0xf8))
		}
	case 8:
		// another message spliced in
		o := good[x.Choice("other", len(good))]
		c := x.Choice("cut", len(q)+1)
		if c < len(o) {
			q = append(q[:c], o[c:]...)
		}
	case 9:
		for i := range q {
			q[i] = 0xff
		}
	case 10:
		q = append(q, q...)
	case 11:
		c, n := x.Choice("cut", len(q)+1), 1+x.Choice("extn", 8)
		if c+n < len(q) {
			q = append(q[:c], q[c+n:]...)
		}
	}
	return q
}

// c09 mixes hostile and honest users.
func c09(x *Ctx) {
	d := x.someDeployment()
	d.exper = x.Choice("experiment", 5) == 4 && d.ownHosts()
	d.up()
	n := x.Net()
	n.LatMax = []time.Duration{2 * time.Millisecond, 0, 100 * time.Millisecond}[x.Choice("netlat", 3)]
	if x.Choice("netfault", 4) == 3 {
		n.ResetPct, n.LostPct = 5, 5
	}
	resp, err := x.rpcInfo(x.NewNode("info").Light(), d.addrs[0])
	if err != nil {
		n.ResetPct, n.LostPct = 0, 0
		resp, err = x.rpcInfo(x.NewNode("info").Light(), d.addrs[0])
	}
	x.Check(err == nil, "info", "database info: %v", err)
	info := infoFrom(resp)
	lossy := n.ResetPct > 0
	mk := func(i int) *rawQuery { return d.someJob().raw(x.NewNode(fmt.Sprintf("user%d", i)).Light(), info) }
	// well-formed queries of this and of other kinds as raw material
	var good [][]byte
	for i := 0; i < 2; i++ {
		good = append(good, mk(i).qs...)
	}
	good = append(good, x.otherQuery(d))
	n.OnReply = func(from, to *rt.Node, method string, reply []byte, err error) {}
	var acts []func()
	nbad := x.Pick("bad", 1, 3, 8, 20)
	kinds := map[string]bool{}
	for b := 0; b < nbad; b++ {
		b := b
		acts = append(acts, func() {
			at := x.Choice("badat", d.k)
			x.Sleep(x.within("badwhen", 50*time.Millisecond))
			nd := x.NewNode(fmt.Sprintf("bad%d", b)).Light()
			for i := 0; i <= x.Choice("badreqs", 3); i++ {
				// what an impatient user asks, well-formed or not
				hasty := func() []byte {
					if x.Choice("hastybad", 2) == 1 {
						kinds["malformed and hasty"] = true
						return x.mangle(good)
					}
					return good[x.Choice("g", len(good))]
				}
				switch x.Choice("badkind", 6) {
				case 0, 1, 2:
					kinds["malformed"] = true
					x.Count("fault:malformed-query")
					x.rpcAsk(nd, d.addrs[at], x.mangle(good), time.Hour)
				case 3:
					kinds["deadline"] = true
					x.Count("fault:client-deadline")
					x.rpcAsk(nd, d.addrs[at], hasty(), x.within("patience", 10*time.Millisecond)+time.Microsecond)
				case 4:
					kinds["cancel"] = true
					x.Count("fault:client-cancel")
					x.cancelled(nd, d.addrs[at], hasty(), x.within("cancelat", 10*time.Millisecond))
				case 5:
					kinds["disconnect"] = true
					x.Count("fault:client-death")
					v := x.NewNode(fmt.Sprintf("dying%d", b))
					q := x.mangle(good)
					if x.Choice("dyinggood", 2) == 1 {
						q = good[x.Choice("g", len(good))]
					}
					v.Start(func() {
						conn, _ := rt.GrpcDial(d.addrs[at])
						proto.NewVPIRClient(conn).Query(context.Background(), &proto.QueryRequest{Query: q}, bigOpts...)
					})
					x.Sleep(x.within("dieat", 10*time.Millisecond))
					v.Kill()
				}
			}
		})
	}
	for u := 0; u < x.Pick("honest", 1, 2, 4); u++ {
		u := u
		acts = append(acts, func() {
			x.Sleep(x.within("when", 50*time.Millisecond))
			d.askAll(mk(100+u), lossy)
		})
	}
	x.Par(acts...)
	d.checkServers()
	// later requests are answered, and soon
	n.ResetPct, n.LostPct = 0, 0
	for u := 0; u < 2; u++ {
		t0 := x.Now()
		d.askAll(mk(200+u), false)
		lim := int64(10 * time.Minute)
		if x.stalled() {
			lim = int64(5 * time.Hour)
		}
		x.Check(x.Now()-t0 < lim, "slow", "a well-formed request took %v", time.Duration(x.Now()-t0))
	}
	d.checkServers()
	d.stopAll()
	x.Nontrivial()
	x.Cover("%s k=%d", d.scheme, d.k)
	for k := range kinds {
		x.Cover("kind=%s", k)
	}
}

// otherQuery is a well-formed query of a scheme the servers do not run.
func (x *Ctx) otherQuery(d *deployment) []byte {
	var q [][]byte
	x.Do("other", func() {
		if d.point() {
			p := &pred{kind: pEmail, text: "alice@x.edu"}
			in, _ := p.encode()
			q, _ = client.NewPredicateAPIR(pointRnd(0), &database.Info{NumColumns: 10}).QueryBytes(in, 2)
		} else {
			q, _ = client.NewPIR(pointRnd(0), &database.Info{NumRows: 1, NumColumns: 20, BlockSize: 100}).QueryBytes(be4(3), 2)
		}
	})
	if len(q) == 0 {
		return []byte{1, 2, 3}
	}
	return q[0]
}

// cancelled sends a query and gives up after a while.
func (x *Ctx) cancelled(nd *rt.Node, addr string, q []byte, after time.Duration) {
	nd.Call(2*time.Hour, func() {
		conn, err := rt.GrpcDial(addr)
		if err != nil {
			return
		}
		ctx, c := rt.CtxWithCancel(context.Background())
		x.GoOn(nd, "canceller", func() {
			x.Sleep(after)
			if x.Choice("close", 4) == 3 {
				conn.Close()
			} else {
				c()
			}
		})
		proto.NewVPIRClient(conn).Query(ctx, &proto.QueryRequest{Query: q}, bigOpts...)
	})
}

// askAll sends a query to all servers and judges the result.
func (d *deployment) askAll(q *rawQuery, lossy bool) {
	x := d.x
	ans := make([][]byte, d.k)
	failed := false
	var acts []func()
	for i := range d.addrs {
		i := i
		acts = append(acts, func() {
			a, err := x.rpcAsk(x.NewNode("h").Light(), d.addrs[i], q.qs[i], time.Hour)
			if err != nil {
				failed = true
				x.Check(lossy || x.stalled(), "honest-refused", "%s: server %d: %v (server: crash %q, fatal %q)\n%s", q.what, i, err, d.srv[i].CrashMsg, d.srv[i].FatalMsg, d.srv[i].CrashStack)
			}
			ans[i] = a
		})
	}
	x.Par(acts...)
	if !failed {
		q.decode(ans)
	}
}

// ---- C10: shutdown ----

func c10(x *Ctx) {
	simprog := x.Choice("simprog", 5) == 4
	var d *deployment
	if simprog {
		k := 2
		x.setDate()
		d = &deployment{x: x, k: k, addrs: x.someAddrs(k, true), sim: true, bySrv: map[*rt.Node]int{}, srv: make([]*rt.Node, k)}
		d.scheme = x.PickS("simscheme", "pir-classic", "pir-merkle")
		d.fx = x.someFixtures(5)
		for i := range d.addrs {
			d.simServer(i, 1)
		}
		d.waitUp()
	} else {
		d = x.someDeployment()
		d.exper = x.Choice("experiment", 3) == 2 && d.ownHosts()
		d.up()
	}
	n := x.Net()
	n.LatMax = []time.Duration{2 * time.Millisecond, 0, 50 * time.Millisecond}[x.Choice("netlat", 3)]
	resp, err := x.rpcInfo(x.NewNode("info").Light(), d.addrs[0])
	x.Check(err == nil, "info", "database info: %v", err)
	info := infoFrom(resp)
	victim := x.Choice("victim", d.k)
	type seen struct{ accepted bool }
	acc := map[*rt.Node]*seen{}
	n.OnRequest = func(from, to *rt.Node, method string, req []byte) {
		if s := acc[from]; s != nil && to == d.srv[victim] && method == methodQuery {
			s.accepted = true
		}
	}
	nu := x.Pick("users", 3, 1, 8, 16, 30)
	span := []time.Duration{5 * time.Millisecond, 200 * time.Microsecond, 100 * time.Millisecond}[x.Choice("span", 3)]
	var qs []*rawQuery
	for u := 0; u < nu; u++ {
		qs = append(qs, d.someJob().raw(x.NewNode(fmt.Sprintf("user%d", u)).Light(), info))
	}
	// what the server answers to each when nothing is going on
	alone := x.answersAlone(d, qs, victim)
	var acts []func()
	signalled := int64(-1)
	nacc, nref := 0, 0
	srv := d.srv[victim]
	how := x.Choice("how", 4)
	if !d.exper && !simprog && how == 3 {
		how = 0
	}
	for u := range qs {
		u := u
		giveup := x.Chance("giveup", 15)
		acts = append(acts, func() {
			x.Sleep(x.within("when", span))
			nd := x.NewNode(fmt.Sprintf("u%d", u)).Light()
			s := &seen{}
			acc[nd] = s
			t0 := x.Now()
			if giveup {
				x.Count("fault:client-cancel")
				x.cancelled(nd, d.addrs[victim], qs[u].qs[victim], x.within("cancelat", span))
				return
			}
			a, err := x.rpcAsk(nd, d.addrs[victim], qs[u].qs[victim], 3*time.Hour)
			if err != nil {
				nref++
				x.Check(!s.accepted, "dropped", "%s: accepted by the server and then not answered: %v (crash %q)\n%s", qs[u].what, err, srv.CrashMsg, srv.CrashStack)
				x.Check(signalled >= 0, "refused", "%s: refused before any signal: %v", qs[u].what, err)
				x.Check(x.Now()-t0 < int64(2*time.Hour) || x.stalled(), "left-hanging", "%s: refused only after %v", qs[u].what, time.Duration(x.Now()-t0))
				return
			}
			if s.accepted {
				nacc++
			}
			x.Check(bytes.Equal(a, alone[u]), "wrong-answer", "%s: around a shutdown the answer is %s, otherwise %s", qs[u].what, short(a), short(alone[u]))
		})
	}
	acts = append(acts, func() {
		x.Sleep(x.within("signalat", span+span/2))
		if how == 3 {
			x.Check(x.WaitListen(hostOf(d.addrs[victim])+":8080", 3*time.Hour), "no-listener", "the server does not listen for the shutdown request")
		}
		signalled = x.Now()
		switch how {
		case 0:
			srv.Signal(syscall.SIGTERM)
		case 1:
			srv.Signal(syscall.SIGINT)
		case 2:
			srv.Signal(syscall.SIGINT)
			x.Sleep(x.within("secondsignal", span))
			srv.Signal(syscall.SIGTERM)
			x.Count("fault:second-signal")
		case 3:
			// the way the experiments stop a server
			r, _ := http.NewRequest("GET", "http://"+hostOf(d.addrs[victim])+":8080/", nil)
			x.HTTPDo(hostOf(d.addrs[victim])+":8080", r, time.Hour)
		}
		x.Count("fault:shutdown")
	})
	x.Par(acts...)
	ok := srv.WaitExit(3 * time.Hour)
	x.Check(ok, "does-not-stop", "the server has not ended three hours after the signal")
	x.Check(!srv.Crashed, "crash", "the server crashed while stopping: %s\n%s", srv.CrashMsg, srv.CrashStack)
	x.Check(srv.ExitCode == 0 && !srv.Killed, "bad-exit", "the server ended with code %d (%s)", srv.ExitCode, srv.FatalMsg)
	// afterwards nothing is answered
	_, err = x.rpcAsk(x.NewNode("late").Light(), d.addrs[victim], qs[0].qs[victim], time.Hour)
	x.Check(err != nil, "answered-after", "a request after the shutdown was answered")
	x.Nontrivial()
	x.Cover("%s sim=%v exper=%v how=%d accepted=%v refused=%v", d.scheme, simprog, d.exper, how, nacc > 0, nref > 0)
	x.Count(fmt.Sprintf("shutdown-accepted-%v-refused-%v", nacc > 0, nref > 0))
}

// ---- C11: web front end ----

var webPoint = []string{"128.179.33.63:50050", "128.179.33.75:50051"}
var webComplex = []string{"128.179.33.63:50040", "128.179.33.75:50041"}

type webWorld struct {
	x     *Ctx
	pt    *deployment
	cx    *deployment
	front *rt.Node
	addr  string
}

func (x *Ctx) webServers() *webWorld {
	x.setDate()
	fx := x.someFixtures(x.Pick("nkeys", 12, 10, 25))
	w := &webWorld{x: x}
	nf := x.Pick("nfiles", 1, 2)
	w.pt = x.prepare(x.PickS("pscheme", "pointVPIR", "pointPIR"), webPoint, fx, nf)
	w.cx = x.prepare("complexVPIR", webComplex, fx, nf)
	w.pt.up()
	w.cx.up()
	return w
}

func (w *webWorld) startFront() {
	x := w.x
	n := x.NewNode("front")
	n.Host = "10.0.3.1"
	n.Loc = x.zone("fzone")
	n.Args = []string{"web"}
	w.addr = "10.0.3.1:9990"
	if x.Choice("listenaddr", 3) == 2 {
		n.Args = append(n.Args, "-listen-addr=10.0.3.1:8000")
		w.addr = "10.0.3.1:8000"
	}
	w.front = n
	n.Start(mainWeb)
	ok := x.WaitListen(w.addr, time.Hour)
	for try := 0; try < 50 && !ok && !n.Alive() && !n.Crashed && x.stalled(); try++ {
		// stalled past its own time limit for connecting: started again
		n.Start(mainWeb)
		ok = x.WaitListen(w.addr, time.Hour)
	}
	x.Check(ok, "front-start", "the front end does not come up: crash %q fatal %q", n.CrashMsg, n.FatalMsg)
}

func (w *webWorld) post(path string, form url.Values, patience time.Duration) rt.HTTPResult {
	r, _ := http.NewRequest("POST", "http://"+w.addr+path, strings.NewReader(form.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	return w.x.HTTPDo(w.addr, r, patience)
}

// visit is one request of a user of the front end and its judgement. It
// returns whether a proper answer came.
func (w *webWorld) visit(patience time.Duration) bool {
	x := w.x
	var res rt.HTTPResult
	what := ""
	if x.Choice("page", 2) == 0 {
		j := w.pt.someJob()
		what = j.what
		res = w.post("/retrieve", url.Values{"email": {j.mail}}, patience)
		if res.Err != nil || res.Status != 200 {
			x.Count("web-error")
			w.alive(what)
			return false
		}
		if strings.Contains(res.Body, "BEGIN PGP") {
			keys, err := armored(res.Body)
			j.checkKey(keys, err, res.Body)
		} else {
			x.Check(strings.Contains(res.Body, "not found"), "odd-page", "%s: %q", what, res.Body)
			x.Check(!j.defined(), "not-found", "%s: reported as not found", what)
		}
		x.Count("web-key")
		return true
	}
	var j *job
	var form url.Values
	path := ""
	switch x.Choice("stat", 3) {
	case 0:
		kind := x.Pick("begend", pPrefix, pSuffix)
		j = &job{d: w.cx, p: x.somePred(w.cx.attrs, kind)}
		if j.p.text == "" {
			j.p.text = "a"
		}
		j.p.kind = kind
		path = "/count/email"
		pos := "begin"
		j.p.info.FromStart, j.p.info.FromEnd = len(j.p.text), 0
		if kind == pSuffix {
			pos = "end"
			j.p.info.FromStart, j.p.info.FromEnd = 0, len(j.p.text)
		}
		j.what = fmt.Sprintf("count %s %q", pos, j.p.text)
		form = url.Values{"position": {pos}, "text": {j.p.text}}
	case 1:
		j = &job{d: w.cx, p: x.somePred(w.cx.attrs, pAlgo)}
		path = "/count/algo"
		form = url.Values{"algo": {j.p.text}}
		j.what = j.p.what
	case 2:
		j = &job{d: w.cx, p: x.somePred(w.cx.attrs, pTime)}
		path = "/count/timestamp"
		form = url.Values{"year": {j.p.text}}
		j.what = j.p.what
	}
	res = w.post(path, form, patience)
	if res.Err != nil || res.Status != 200 {
		x.Count("web-error")
		w.alive(j.what)
		x.Tracef("page: %v %d %s", res.Err, res.Status, res.Body)
		return false
	}
	var v uint64
	_, err := fmt.Sscanf(res.Body, "count: %d", &v)
	x.Check(err == nil, "odd-page", "%s: %q", j.what, res.Body)
	j.checkCount(v)
	x.Count("web-count")
	return true
}

func (w *webWorld) alive(what string) {
	n := w.front
	w.x.Check(n.Alive(), "front-gone", "the front end has ended (%s): crash %q, fatal %q, code %d\n%s", what, n.CrashMsg, n.FatalMsg, n.ExitCode, n.CrashStack)
}

// odd sends something a browser would not.
func (w *webWorld) odd() {
	x := w.x
	paths := []string{"/", "/retrieve", "/count/email", "/count/algo", "/count/timestamp", "/static/", "/nothing", "/count/"}
	form := url.Values{}
	for i := 0; i < x.Choice("fields", 3); i++ {
		k := x.PickS("field", "email", "position", "text", "algo", "year", "x")
		form.Set(k, x.PickS("value", "", "begin", "end", "middle", "RSA", "rsa", "Ed25519", "2019", "-1", "abc", "999999999", "\x00", strings.Repeat("long", 500), "é@x"))
	}
	p := paths[x.Choice("path", len(paths))]
	x.Count("fault:odd-web-request")
	switch x.Choice("oddkind", 3) {
	case 0:
		w.post(p, form, time.Hour)
	case 1:
		r, _ := http.NewRequest(x.PickS("method", "GET", "PUT", "HEAD", "DELETE"), "http://"+w.addr+p+"?"+form.Encode(), nil)
		x.HTTPDo(w.addr, r, time.Hour)
	case 2:
		r, _ := http.NewRequest("POST", "http://"+w.addr+p, strings.NewReader("%zz=%&;\xff"))
		r.Header.Set("Content-Type", x.PickS("ctype", "application/x-www-form-urlencoded", "text/plain", "multipart/form-data"))
		x.HTTPDo(w.addr, r, time.Hour)
	}
	w.alive("after an odd request")
}

func c11(x *Ctx) { c11run(x, false) }

// c11together: many users at the same moment, nothing goes wrong.
func c11together(x *Ctx) { c11run(x, true) }

func c11run(x *Ctx, together bool) {
	w := x.webServers()
	w.startFront()
	all := append(append([]*rt.Node{}, w.pt.srv...), w.cx.srv...)
	mode := 0
	if !together {
		mode = x.Pick("mode", 0, 1, 2, 3, 4, 5, 6)
	}
	x.Cover("mode=%d %s", mode, w.pt.scheme)
	n := x.Net()
	trouble := false
	span := []time.Duration{20 * time.Millisecond, 2 * time.Second, time.Minute, 0}[x.Choice("span", 4)]
	if span == 0 || together && span > time.Second { // everyone at once
		span = time.Microsecond
		n.LatMax = 0
	}
	var acts []func()
	switch mode {
	case 1:
		trouble = x.drawNet()
	case 2: // servers die and come back
		trouble = true
		for f := 0; f <= x.Choice("crashes", 3); f++ {
			acts = append(acts, func() {
				v := all[x.Choice("victim", len(all))]
				x.Sleep(x.within("killat", span))
				if !v.Alive() {
					return
				}
				x.Count("fault:server-kill")
				if x.Choice("gracefully", 3) == 2 {
					v.Signal(syscall.SIGTERM)
					if !v.WaitExit(3 * time.Hour) {
						x.Fail(x.Prop, x.Scenario+"/server-stop", "a server does not stop")
					}
				} else {
					v.Kill()
				}
				x.Sleep(x.within("down", 2*span))
				if !v.Alive() {
					v.Start(mainServer)
				}
			})
		}
	case 3: // partition
		trouble = true
		v := all[x.Choice("victim", len(all))]
		from := x.Now() + int64(x.within("partat", span))
		to := from + int64(x.within("partfor", 2*span))
		n.Blocked = func(a, b *rt.Node) bool { return x.Now() >= from && x.Now() < to && (a == v || b == v) }
		acts = append(acts, func() { x.Sleep(time.Duration(to - x.Now())); n.Blocked = nil; x.KickNet() })
	case 4: // a lying server
		if w.pt.auth() && x.Choice("which", 2) == 0 {
			w.pt.lie(x.Choice("liar", 2))
		} else {
			w.cx.lie(x.Choice("liar", 2))
		}
		trouble = true
	case 5: // a server that changes its parameters
		trouble = true
		v := all[x.Choice("victim", len(all))]
		n.Lie = func(from, to *rt.Node, method string, reply []byte, err error) ([]byte, error) {
			if to != v || method != methodInfo || err != nil || x.Choice("lie", 2) == 0 {
				return reply, err
			}
			x.Count("fault:altered-info")
			b, _ := x.alterInfo(reply)
			return b, nil
		}
	case 6: // lost messages and slow servers at once
		trouble = true
		n.ResetPct, n.LostPct, n.StallPct, n.StallMax = 10, 10, 20, 2*time.Hour
	}
	users := x.Pick("users", 1, 2, 4, 8)
	if together {
		users++
	}
	answered := 0
	for u := 0; u < users; u++ {
		u := u
		acts = append(acts, func() {
			for r := 0; r <= x.Choice("visits", 3); r++ {
				x.Sleep(x.within("when", span))
				if x.Choice("odd", 6) == 5 {
					w.odd()
					continue
				}
				patience := 8 * time.Hour
				quit := x.Chance("impatient", 10)
				if quit {
					patience = x.within("patience", 20*time.Millisecond)
				}
				t0 := x.Now()
				ok := w.visit(patience)
				if ok {
					answered++
				}
				x.Check(ok || trouble || quit || x.stalled(), "fails", "user %d got an error though nothing went wrong", u)
				lim := int64(3 * time.Hour)
				if mode == 6 {
					lim = int64(7 * time.Hour) // the messages of the user are held up as well
				}
				if !x.stalled() {
					x.Check(x.Now()-t0 < lim, "hangs", "a page took %v", time.Duration(x.Now()-t0))
				}
			}
		})
	}
	x.Par(acts...)
	w.alive("at the end")
	x.healNet()
	for _, v := range all {
		if !v.Alive() {
			v.Start(mainServer)
		}
	}
	w.pt.waitUp()
	w.cx.waitUp()
	// everything is healthy again: requests succeed soon
	for i := 0; i < 2; i++ {
		t0 := x.Now()
		ok := false
		for try := 0; try < 5 && !ok; try++ {
			ok = w.visit(4 * time.Hour)
			if !ok {
				x.Sleep(time.Minute)
			}
		}
		x.Check(ok, "no-recovery", "the front end keeps failing after the servers are healthy again")
		x.Check(x.Now()-t0 < int64(10*time.Minute) || x.stalled(), "slow-recovery", "a page took %v", time.Duration(x.Now()-t0))
	}
	w.alive("at the end")
	if answered > 0 {
		x.Nontrivial()
	}
	x.Cover("users=%d", users)
}

// ---- C14: parameters ----

// alterInfo changes one field of a DatabaseInfo reply.
func (x *Ctx) alterInfo(reply []byte) ([]byte, string) {
	var r proto.DatabaseInfoResponse
	if gproto.Unmarshal(reply, &r) != nil {
		panic("info")
	}
	num := func(v uint32) uint32 {
		switch x.Choice("numhow", 5) {
		case 0:
			return v + 1
		case 1:
			return v - 1
		case 2:
			return v * 2
		case 3:
			return v + 1<<16
		}
		if v == 0 {
			return 7
		}
		return 0
	}
	before := gproto.Clone(&r)
	what := ""
	for try := 0; ; try++ {
		switch x.Choice("field", 6) {
		case 0:
			what = "rows"
			r.NumRows = num(r.NumRows)
		case 1:
			what = "columns"
			r.NumColumns = num(r.NumColumns)
		case 2:
			what = "block length"
			r.BlockLength = num(r.BlockLength)
		case 3:
			what = "type"
			if r.PirType == "merkle" {
				r.PirType = x.PickS("type", "", "classical", "Merkle", "merkle2")
			} else {
				r.PirType = x.PickS("type", "merkle", "classical", "x")
			}
		case 4:
			what = "root"
			root := append([]byte{}, r.Root...)
			switch h := x.Choice("roothow", 5); {
			case h == 0 && len(root) > 0:
				root[x.Choice("rootat", len(root))] ^= byte(1 << x.Choice("rootbit", 8))
			case h == 1 && len(root) > 0:
				root = root[:len(root)-1]
			case h == 2 && len(root) > 0:
				root = nil
			case h == 3 && len(root) > 0:
				root = randBytes(x.RandFor("root"), len(root))
			default:
				root = append(root, byte(x.Choice("rootext", 256)))
			}
			r.Root = root
		case 5:
			what = "proof length"
			r.ProofLen = num(r.ProofLen)
		}
		if !gproto.Equal(before, &r) {
			break
		}
		if try > 3 {
			what = "columns"
			r.NumColumns++
		}
	}
	b, _ := gproto.Marshal(&r)
	return b, what
}

// c14 gives one server other parameters than the rest.
func c14(x *Ctx) {
	kind := x.Choice("frontend", 5) // 0,1 command line, 2 web, 3 interactive, 4 experiments
	infos := map[*rt.Node]map[*rt.Node][]byte{}
	asked := map[*rt.Node]int{}
	n := x.Net()
	hook := func(agree bool, victim *rt.Node) *string {
		what := ""
		var fixed []byte
		if !agree {
			n.Lie = func(from, to *rt.Node, method string, reply []byte, err error) ([]byte, error) {
				if to != victim || method != methodInfo || err != nil {
					return reply, err
				}
				if fixed == nil {
					fixed, what = x.alterInfo(reply)
					x.Count("fault:other-parameters")
				}
				return fixed, nil
			}
		}
		n.OnReply = func(from, to *rt.Node, method string, reply []byte, err error) {
			if method == methodInfo && err == nil {
				if infos[from] == nil {
					infos[from] = map[*rt.Node][]byte{}
				}
				infos[from][to] = reply
			}
		}
		n.OnRequest = func(from, to *rt.Node, method string, req []byte) {
			if method == methodQuery {
				asked[from]++
			}
		}
		return &what
	}
	n.LatMax = []time.Duration{2 * time.Millisecond, 200 * time.Millisecond, 2 * time.Second}[x.Choice("netlat", 3)]
	agree := x.Choice("agree", 5) == 0
	// other reasons for a difference: the servers did load different files
	really := !agree && x.Choice("really", 4) == 3
	differ := func(d *deployment, v int) {
		// server v holds one more key
		for _, f := range x.someFixtures(len(fixtures)) {
			if d.find(f.Email) == nil {
				dk := d.disk.Clone()
				putKeyFile(dk, "/work/data/sks/sks-00.pgp", toKeys(append([]*Fixture{f}, d.fx...)))
				for i := 1; i < d.nfiles; i++ {
					putKeyFile(dk, fmt.Sprintf("/work/data/sks/sks-%02d.pgp", i), nil)
				}
				d.srv[v].Disk = dk
				return
			}
		}
	}
	same := func(c *rt.Node, k int) (bool, int) {
		var first []byte
		eq := true
		for _, b := range infos[c] {
			if first == nil {
				first = b
			} else if !bytes.Equal(first, b) {
				eq = false
			}
		}
		return eq, len(infos[c])
	}
	if kind <= 1 {
		d := x.someDeployment()
		v := x.Choice("victim", d.k)
		for i := range d.addrs {
			d.newServer(i)
			if really && i == v {
				differ(d, v)
			}
			d.srv[i].Start(mainServer)
		}
		d.waitUp()
		what := hook(agree || really, d.srv[v])
		if really {
			*what = "keys"
		}
		j := d.someJob().forCLI()
		run := d.cli("client", j)
		c := run.n
		if agree {
			run.finish(true)
		} else {
			x.Check(c.WaitExit(6*time.Hour), "hangs", "the client has not ended after 6 hours")
		}
		eq, cnt := same(c, d.k)
		if !eq {
			x.Check(asked[c] == 0, "proceeds", "server %d of %d has another %s, yet the client sends queries (%s)", v, d.k, *what, d.scheme)
			x.Check(c.ExitCode != 0, "no-error", "server %d of %d has another %s, yet the client exits with 0", v, d.k, *what)
			x.Check(!c.Crashed, "crash", "client with differing servers (%s): %s\n%s", *what, c.CrashMsg, c.CrashStack)
			x.Nontrivial()
		} else if agree {
			x.Nontrivial()
		}
		x.Cover("cli %s k=%d v=%d %s agree=%v infos=%d", d.scheme, d.k, v, *what, eq, cnt)
		d.checkServers()
		return
	}
	if kind == 4 {
		d := x.simUp()
		v := x.Choice("victim", d.k)
		d.waitUp()
		_, d.simBlock = d.simColumns()
		what := hook(agree, d.srv[v])
		c := d.simClient("client", 1+x.Choice("reps", 2), 1+x.Choice("blocks", 3))
		x.Check(c.WaitExit(24*time.Hour), "hangs", "the experiments' client has not ended after a day")
		eq, cnt := same(c, d.k)
		if !eq {
			x.Check(asked[c] == 0, "proceeds", "server %d of %d has another %s, yet the experiments' client sends queries (%s)", v, d.k, *what, d.scheme)
			x.Check(c.ExitCode != 0, "no-error", "server %d of %d has another %s, yet the experiments' client exits with 0", v, d.k, *what)
			x.Check(!c.Crashed, "crash", "experiments' client with differing servers (%s): %s\n%s", *what, c.CrashMsg, c.CrashStack)
			x.Nontrivial()
		} else if agree {
			x.Check(c.ExitCode == 0 && !c.Crashed || x.stalled(), "refused", "all parameters agree, yet the experiments' client fails: %d %s %s", c.ExitCode, c.FatalMsg, c.CrashMsg)
			x.Nontrivial()
		}
		x.Cover("exper %s k=%d v=%d %s agree=%v infos=%d", d.scheme, d.k, v, *what, eq, cnt)
		return
	}
	x.setDate()
	fx := x.someFixtures(12)
	w := &webWorld{x: x}
	w.pt = x.prepare(x.PickS("pscheme", "pointVPIR", "pointPIR"), webPoint, fx, 1)
	w.cx = x.prepare("complexVPIR", webComplex, fx, 1)
	pt := x.Choice("which", 2) == 0
	v := x.Choice("victim", 2)
	for i := 0; i < 2; i++ {
		for _, d := range []*deployment{w.pt, w.cx} {
			d.newServer(i)
			if really && i == v && (d == w.pt) == pt {
				differ(d, v)
			}
			d.srv[i].Start(mainServer)
		}
	}
	w.pt.waitUp()
	w.cx.waitUp()
	d := w.cx
	if pt {
		d = w.pt
	}
	what := hook(agree || really, d.srv[v])
	if kind == 2 {
		w.startFront()
		c := w.front
		rounds := 1 + x.Choice("rounds", 2)
		for r := 0; r < rounds; r++ {
			delete(infos, c)
			before := asked[c]
			var res rt.HTTPResult
			j := d.someJob()
			if pt {
				res = w.post("/retrieve", url.Values{"email": {j.mail}}, 4*time.Hour)
			} else {
				res = w.post("/count/email", url.Values{"position": {"end"}, "text": {"edu"}}, 4*time.Hour)
			}
			eq, cnt := same(c, 2)
			if !eq {
				x.Check(asked[c] == before, "proceeds", "server %d has another %s, yet the front end sends queries", v, *what)
				x.Check(res.Err == nil && res.Status != 200, "no-error", "server %d has another %s, yet the front end answers %d %v %q", v, *what, res.Status, res.Err, res.Body)
				x.Nontrivial()
			} else if agree {
				x.Check(res.Err == nil && res.Status == 200 || x.stalled(), "refused", "all parameters agree, yet the front end answers %d %v %q", res.Status, res.Err, res.Body)
				x.Nontrivial()
			}
			w.alive("with differing servers")
			x.Cover("web pt=%v v=%d %s agree=%v infos=%d", pt, v, *what, eq, cnt)
		}
		return
	}
	s := w.session("inter")
	if pt {
		s.lookup(w.pt.someJob())
	} else {
		s.count(x)
	}
	s.start()
	c := s.n
	x.Check(c.WaitExit(6*time.Hour), "hangs", "the interactive client has not ended after 6 hours")
	eq, cnt := same(c, 2)
	if !eq {
		x.Check(asked[c] == 0, "proceeds", "server %d has another %s, yet the interactive client sends queries", v, *what)
		x.Check(c.ExitCode != 0, "no-error", "server %d has another %s, yet the interactive client exits with 0: %s", v, *what, lastPart(c.Out.String()))
		x.Check(!c.Crashed, "crash", "interactive client with differing servers (%s): %s\n%s", *what, c.CrashMsg, c.CrashStack)
		x.Nontrivial()
	} else if agree {
		s.judge(true)
		x.Nontrivial()
	}
	x.Cover("inter pt=%v v=%d %s agree=%v infos=%d", pt, v, *what, eq, cnt)
}

func init() {
	net := "the transport (gRPC, HTTP and TCP, simulated above the generated protocol code with loss, delay, resets, partitions), disks, clocks and zones, signals, scheduler, randomness (seeded per process), the person at the keyboard"
	srv := "cmd/grpc/server main, lib/server, lib/database, lib/pgp, go-crypto parsing, generated proto code"
	add := func(p *Property) { register(p) }
	add(&Property{ID: "C08", Rule: "one run = one server shared by several library callers, or a deployment of 2-5 server programs and 2-14 users whose requests overlap; every answer compared with the answer to the same request alone and decoded; distinct by the hash of the run's event log",
		Real: srv + ", simulations/multi/server, all lib/server types incl. lattice and group servers", Stub: net,
		Scenarios: []Scenario{{Name: "library", Weight: 5, Run: c08lib}, {Name: "deployed", Weight: 4, Run: c08deployed}}})
	add(&Property{ID: "C09", Rule: "one run = one deployment, 1-20 hostile users (malformed, cancelled, expired, dying) among honest ones, then honest requests and a shutdown; distinct by the hash of the run's event log",
		Real: srv, Stub: net,
		Scenarios: []Scenario{{Name: "hostile", Weight: 1, Run: c09}}})
	add(&Property{ID: "C10", Rule: "one run = one deployment, 1-30 requests and a signal (or the experiments' HTTP stop) at random instants; each accepted request compared with the answer in quiet; distinct by the hash of the run's event log",
		Real: srv + ", simulations/multi/server main", Stub: net,
		Scenarios: []Scenario{{Name: "shutdown", Weight: 1, Run: c10}}})
	add(&Property{ID: "C11", Rule: "one run = the front end, four servers, 1-8 users with 1-4 visits, one fault mode, then recovery; distinct by the hash of the run's event log",
		Real: "cmd/grpc/client/web main and handlers, manager, " + srv, Stub: net,
		Scenarios: []Scenario{{Name: "web", Weight: 3, Run: c11}, {Name: "together", Weight: 2, Run: c11together}}})
	add(&Property{ID: "C12", Rule: "one run = 2-5 servers and 1-4 client programs with 1-2 invocations each under one fault plan; distinct by the hash of the run's event log",
		Real: "cmd/grpc/client main, cmd/grpc/client/interactive main, manager, simulations/multi/client main, simulations/multi/server main, lib/client, " + srv, Stub: net,
		Assume:    []string{"the plain schemes are run with honest servers only; lying servers are met by the authenticated ones"},
		Scenarios: []Scenario{{Name: "cli", Weight: 6, Run: c12}, {Name: "lying", Weight: 2, Run: c12lying}, {Name: "interactive", Weight: 3, Run: c12inter}, {Name: "experiment", Weight: 2, Run: c12exper}}})
	add(&Property{ID: "C14", Rule: "one run = one client program (command line, web, interactive, experiments) and servers of which one advertises another value in one field, really holds other keys, or none differs; distinct by the hash of the run's event log",
		Real: "cmd/grpc/client main, web main, interactive main, manager, simulations/multi/client main, simulations/multi/server main, " + srv, Stub: net + "; a differing field is altered on the wire",
		Scenarios: []Scenario{{Name: "parameters", Weight: 1, Run: c14}}})
}
