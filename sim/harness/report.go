package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/zzsim/rt"
	gproto "google.golang.org/protobuf/proto"
)

// The programs report, for the experiments, what a retrieval cost. What they
// report is compared with what the network saw.

// exEvent is a message of a client the network saw.
type exEvent struct {
	at    int64
	reply bool
	query bool // otherwise the parameters
	srv   int
	bytes string
}

type exWatch struct {
	d         *deployment
	of        map[*rt.Node][]exEvent
	began     map[*rt.Node]int64
	arrived   []int   // requests that reached a server
	delivered [][]int // lengths of the answers a server gave
}

func (d *deployment) watchCosts() *exWatch {
	w := &exWatch{d: d, of: map[*rt.Node][]exEvent{}, arrived: make([]int, d.k), delivered: make([][]int, d.k)}
	x := d.x
	at := map[string]int{}
	for i, a := range d.addrs {
		at[a] = i
	}
	x.Net().OnSend = func(from *rt.Node, target, method string, req []byte) {
		e := exEvent{at: x.Now(), srv: at[target]}
		var q proto.QueryRequest
		if method == methodQuery && gproto.Unmarshal(req, &q) == nil {
			e.query, e.bytes = true, string(q.Query)
		}
		w.of[from] = append(w.of[from], e)
	}
	x.Net().OnRequest = func(from, to *rt.Node, method string, req []byte) {
		if method == methodQuery {
			w.arrived[d.bySrv[to]]++
		}
	}
	x.Net().OnReply = func(from, to *rt.Node, method string, reply []byte, err error) {
		if err != nil {
			return
		}
		i := d.bySrv[to]
		e := exEvent{at: x.Now(), srv: i, reply: true}
		var r proto.QueryResponse
		if method == methodQuery && gproto.Unmarshal(reply, &r) == nil {
			e.query = true
			w.delivered[i] = append(w.delivered[i], len(r.Answer))
		}
		w.of[from] = append(w.of[from], e)
	}
	return w
}

// exRound is one query to all servers.
type exRound struct {
	bytes       int
	first, last int64 // first message sent, last answer given
	answers     int
}

// rounds splits what a client asked into its queries; before is when it had the
// parameters.
func (w *exWatch) rounds(n *rt.Node) (rs []exRound, before int64) {
	nth := make([]int, w.d.k)
	last := make([]string, w.d.k)
	got := make([]int, w.d.k)
	for _, e := range w.of[n] {
		switch {
		case !e.query:
			if e.reply {
				before = e.at
			}
		case !e.reply:
			if nth[e.srv] > 0 && len(e.bytes) >= 16 && last[e.srv] == e.bytes {
				continue // the same share once more
			}
			last[e.srv] = e.bytes
			nth[e.srv]++
			if nth[e.srv] > len(rs) {
				rs = append(rs, exRound{first: e.at})
			}
			rs[nth[e.srv]-1].bytes += len(e.bytes)
			got[e.srv] = 0
		default:
			if got[e.srv]++; got[e.srv] == 1 && nth[e.srv] > 0 {
				rs[nth[e.srv]-1].last = e.at
				rs[nth[e.srv]-1].answers++
			}
		}
	}
	return rs, before
}

var statsRe = regexp.MustCompile(`stats,([-+0-9.,eInfNa]*)`)

// statsOf returns the statistics a process printed, wherever it did.
func statsOf(n *rt.Node) [][]float64 {
	text := n.Out.String() + "\n" + n.Err.String()
	if n.Disk != nil {
		for _, p := range n.Disk.List() {
			if strings.HasSuffix(p, ".log") {
				b, _ := n.Disk.Get(p)
				text += "\n" + string(b)
			}
		}
	}
	var out [][]float64
	for _, m := range statsRe.FindAllStringSubmatch(text, -1) {
		var l []float64
		for _, f := range strings.Split(m[1], ",") {
			v, err := strconv.ParseFloat(f, 64)
			if err != nil {
				v = -12345
			}
			l = append(l, v)
		}
		out = append(out, l)
	}
	return out
}

const exEps = 3e-6 // six digits are printed

// judgeLine compares one line of a client with what went over the network
// between from and to.
func (x *Ctx) judgeLine(what string, bw, elapsed float64, rs []exRound, from, to int64) {
	sum := 0
	for _, r := range rs {
		sum += r.bytes
	}
	x.Check(bw == float64(sum), "wrong-bandwidth", "%s: reports %v bytes of queries, %d were sent", what, bw, sum)
	least := float64(rs[len(rs)-1].last-rs[0].first) / 1e9
	most := float64(to-from) / 1e9
	x.Check(elapsed >= least-exEps, "wrong-time", "%s: reports %f seconds, but %f passed from the first query to the last answer", what, elapsed, least)
	x.Check(elapsed <= most+exEps, "wrong-time", "%s: reports %f seconds, but the retrieval had only %f", what, elapsed, most)
	x.Count("lines-judged")
}

// servers compares the lines of the servers with the answers they gave.
func (w *exWatch) servers(cores map[*rt.Node]string, exact bool) {
	d := w.d
	x := d.x
	d.stopAll()
	for i, n := range d.srv {
		if n.Killed {
			continue
		}
		var lines []int
		for _, l := range statsOf(n) {
			if !d.sim {
				x.Check(len(l) == 2 && fmt.Sprint(l[0]) == cores[n], "wrong-cores", "server %d reports %v, it was told to use %s cores", i, l, cores[n])
				l = l[1:]
			}
			x.Check(len(l) == 1, "malformed", "server %d reports %v", i, l)
			lines = append(lines, int(l[0]))
		}
		want := append([]int{}, w.delivered[i]...)
		if !d.sim && !d.exper {
			want = nil
		}
		sort.Ints(lines)
		sort.Ints(want)
		if exact {
			x.Check(fmt.Sprint(lines) == fmt.Sprint(want), "wrong-report", "server %d (%s) reports answers of %v bytes, it gave %v", i, d.scheme, lines, want)
			continue
		}
		// an answer may have been computed for nobody
		x.Check(len(lines) <= w.arrived[i], "wrong-report", "server %d reports %d answers to %d requests", i, len(lines), w.arrived[i])
		j := 0
		for _, v := range want {
			for j < len(lines) && lines[j] < v {
				j++
			}
			x.Check(j < len(lines) && lines[j] == v, "wrong-report", "server %d reports answers of %v bytes, it gave %v", i, lines, want)
			j++
		}
	}
}

// c23cli: the command-line client and its servers as the experiments run them.
func c23cli(x *Ctx) {
	x.setDate()
	sc := schemes[x.Choice("scheme", 4)]
	k := 2
	if strings.HasPrefix(sc, "point") {
		k = x.Pick("servers", 2, 2, 3, 4, 5)
	}
	d := x.prepare(sc, x.someAddrs(k, true), x.someFixtures(x.Pick("nkeys", 12, 10, 21, 35)), x.Pick("nfiles", 1, 2))
	d.exper = x.Choice("experiment", 5) != 4
	d.cliExper = true
	w := d.watchCosts()
	trouble := x.drawNet()
	d.up()
	cores := map[*rt.Node]string{}
	for _, n := range d.srv {
		cores[n] = "-1"
		for _, a := range n.Args {
			if strings.HasPrefix(a, "-cores=") {
				cores[n] = a[len("-cores="):]
			}
		}
	}
	if x.Choice("kill", 8) == 7 {
		v := x.Choice("victim", d.k)
		dl := x.within("killat", 2*time.Second)
		trouble = true
		x.Count("fault:server-kill")
		x.GoOn(x.Root(), "killer", func() {
			x.Sleep(dl)
			if d.srv[v].Alive() {
				d.srv[v].Kill()
			}
		})
	}
	nc := x.Pick("clients", 2, 1, 3, 4)
	nr := x.Pick("rounds", 1, 2)
	hostile := x.Choice("hostile", 4) == 3
	var acts []func()
	for c := 0; c < nc; c++ {
		c := c
		acts = append(acts, func() {
			for r := 0; r < nr; r++ {
				j := d.someJob().forCLI()
				run := d.cli(fmt.Sprintf("client%d.%d", c, r), j)
				run.finish(false)
				n := run.n
				lines := statsOf(n)
				reports := false
				cc := "-1"
				for _, a := range n.Args {
					reports = reports || a == "-experiment"
					if strings.HasPrefix(a, "-cores=") {
						cc = a[len("-cores="):]
					}
				}
				x.Nontrivial()
				if n.ExitCode != 0 || !reports {
					x.Check(len(lines) == 0, "reports-failure", "the client for %s (exit code %d, experiment %v) reports %v", j.what, n.ExitCode, reports, lines)
					continue
				}
				x.Check(len(lines) == 1 && len(lines[0]) == 3, "no-report", "the client for %s succeeds and reports %v", j.what, lines)
				rs, before := w.rounds(n)
				x.Check(len(rs) == 1, "rounds", "the client for %s sent %d queries", j.what, len(rs))
				x.Check(fmt.Sprint(lines[0][0]) == cc, "wrong-cores", "the client for %s reports %v, it was told to use %s cores", j.what, lines[0], cc)
				x.judgeLine("the client for "+j.what, lines[0][1], lines[0][2], rs, before, x.Now())
			}
		})
	}
	if hostile {
		acts = append(acts, func() {
			h := x.NewNode("h").Light()
			resp, err := x.rpcInfo(h, d.addrs[0])
			if err != nil {
				return
			}
			for i := 0; i < 1+x.Choice("nhostile", 5); i++ {
				q := d.someJob().raw(h, infoFrom(resp))
				at := x.Choice("hostileat", d.k)
				x.rpcAsk(x.NewNode("hostile").Light(), d.addrs[at], x.mangle(q.qs), time.Hour)
			}
		})
	}
	x.Par(acts...)
	x.Cover("%s k=%d trouble=%v", sc, k, trouble)
	x.Cover("clients=%d rounds=%d hostile=%v exper=%v", nc, nr, hostile, d.exper)
	w.servers(cores, !trouble && !x.stalled())
}

// c23exper: the programs of the simulations directory.
func c23exper(x *Ctx) {
	d := x.simUp()
	w := d.watchCosts()
	trouble := x.drawNet()
	d.waitUp()
	_, d.simBlock = d.simColumns()
	if x.Choice("kill", 6) == 5 {
		v := x.Choice("victim", d.k)
		dl := x.within("killat", 200*time.Millisecond)
		trouble = true
		x.Count("fault:server-kill")
		x.GoOn(x.Root(), "killer", func() {
			x.Sleep(dl)
			if d.srv[v].Alive() {
				d.srv[v].Kill()
			}
		})
	}
	nc := x.Pick("clients", 2, 1, 3)
	var acts []func()
	for c := 0; c < nc; c++ {
		c := c
		reps, blocks := x.Pick("reps", 2, 1, 3, 5), x.Pick("blocks", 1, 2, 5)
		acts = append(acts, func() {
			n := d.simClient(fmt.Sprintf("client%d", c), reps, blocks)
			w.experClient(n, reps, blocks)
		})
	}
	x.Par(acts...)
	x.Cover("simulations %s k=%d rows=%d clients=%d trouble=%v", d.scheme, d.k, d.simRows, nc, trouble)
	w.servers(nil, !trouble && !x.stalled())
}

// c23experPredicate: the client of the simulations directory with predicates.
func c23experPredicate(x *Ctx) {
	x.setDate()
	d := x.prepare(x.PickS("scheme", "complexVPIR", "complexPIR"), x.someAddrs(2, true), x.someFixtures(x.Pick("nkeys", 5, 1, 20)), 1)
	d.exper = true
	w := d.watchCosts()
	trouble := x.drawNet()
	d.up()
	cores := map[*rt.Node]string{}
	for _, n := range d.srv {
		cores[n] = "-1"
		for _, a := range n.Args {
			if strings.HasPrefix(a, "-cores=") {
				cores[n] = a[len("-cores="):]
			}
		}
	}
	nc := x.Pick("clients", 1, 2)
	var acts []func()
	for c := 0; c < nc; c++ {
		c := c
		reps := x.Pick("reps", 2, 1, 3)
		acts = append(acts, func() {
			n := x.NewNode(fmt.Sprintf("client%d", c))
			n.Host = "10.0.1.1"
			n.Disk = rt.NewDisk()
			n.Disk.Put("/config.toml", tomlFor(d.addrs))
			n.Disk.Put("/work/client", nil)
			n.Args = []string{"client", "-scheme=fss-auth", fmt.Sprintf("-repetitions=%d", reps), fmt.Sprintf("-inputSize=%d", x.Pick("input", 1, 2, 4, 8, 32))}
			if !d.auth() {
				n.Args[1] = "-scheme=fss-classic"
			}
			if x.Choice("logfile", 4) == 3 {
				n.Args = append(n.Args, "-logFile=client.log")
			}
			n.Start(mainMCli)
			w.experClient(n, reps, 1)
		})
	}
	x.Par(acts...)
	x.Cover("predicates %s clients=%d trouble=%v", d.scheme, nc, trouble)
	w.servers(cores, !trouble && !x.stalled())
}

// experClient waits for a client of the experiments and judges its report.
func (w *exWatch) experClient(n *rt.Node, reps, blocks int) {
	x := w.d.x
	x.Check(n.WaitExit(24*time.Hour), "client-hangs", "the experiments' client has not ended after a day of simulated time")
	ended := x.Now()
	x.Check(!n.Crashed, "client-crash", "the experiments' client crashed: %s\n%s", n.CrashMsg, n.CrashStack)
	x.Nontrivial()
	lines := statsOf(n)
	rs, before := w.rounds(n)
	x.Check(n.ExitCode != 0 || len(lines) == reps, "no-report", "the experiments' client succeeds after %d repetitions and reports %v", reps, lines)
	x.Check(len(lines) <= reps, "reports-failure", "the experiments' client reports %d of %d repetitions", len(lines), reps)
	if n.ExitCode == 0 {
		x.Count("exper-success")
	} else {
		x.Count("exper-error")
	}
	for j, l := range lines {
		what := fmt.Sprintf("the experiments' client, repetition %d of %d with %d blocks", j, reps, blocks)
		x.Check(len(l) == 3 && l[0] == float64(j), "malformed", "%s: reports %v", what, l)
		x.Check(len(rs) >= (j+1)*blocks, "reports-failure", "%s: reports %v after %d queries", what, l, len(rs))
		r := rs[j*blocks : (j+1)*blocks]
		for _, q := range r {
			x.Check(q.answers == w.d.k, "reports-failure", "%s: reports %v, yet only %d servers answered", what, l, q.answers)
		}
		from, to := before, ended
		if j > 0 {
			from = rs[j*blocks-1].last
		}
		if len(rs) > (j+1)*blocks {
			to = rs[(j+1)*blocks].first
		}
		x.judgeLine(what, l[1], l[2], r, from, to)
	}
}

func init() {
	register(&Property{ID: "C23", Rule: "one run = one deployment and 1-8 retrievals of command-line clients, or 1-3 experiment clients with 1-5 repetitions each; non-trivial = a client ended; distinct by the hash of the run's event log",
		Real:   "cmd/grpc/client main, cmd/grpc/server main, simulations/multi/client main, simulations/multi/server main, with all libraries below them",
		Stub:   "gRPC transport (simulated network), clock, scheduler, file system, randomness (seeded)",
		Assume: []string{"repetitions of the same message to the same server count once", "a killed server's report is not judged"},
		Scenarios: []Scenario{
			{Name: "cli", Weight: 3, Run: c23cli},
			{Name: "experiments", Weight: 2, Run: c23exper},
			{Name: "predicates", Weight: 1, Run: c23experPredicate},
		}})
}
