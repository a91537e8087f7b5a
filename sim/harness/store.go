package main

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/utils"
	"github.com/si-co/vpir-code/zzsim/rt"
)

// ---- reading a store with independent code ----

// decodeKeys reads a key stream; the error is nil at a proper end.
func decodeKeys(b []byte) ([]pgp.Key, error) {
	dec := gob.NewDecoder(bytes.NewReader(b))
	var ks []pgp.Key
	for {
		var k pgp.Key
		err := dec.Decode(&k)
		if err == io.EOF {
			return ks, nil
		}
		if err != nil {
			return ks, err
		}
		ks = append(ks, k)
	}
}

func sameKeys(a []pgp.Key, b []pgp.Key) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || !bytes.Equal(a[i].Packet, b[i].Packet) {
			return false
		}
	}
	return true
}

func deref(ks []*pgp.Key) []pgp.Key {
	var o []pgp.Key
	for _, k := range ks {
		if k == nil {
			o = append(o, pgp.Key{ID: "nil"})
			continue
		}
		o = append(o, *k)
	}
	return o
}

func keyNames(ks []pgp.Key) string {
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%s(%d)", k.ID, len(k.Packet)))
	}
	if len(s) > 12 {
		s = append(s[:12], "...")
	}
	return strings.Join(s, " ")
}

// parseOne reads a packet that has to hold one key.
func (x *Ctx) parseOne(packet []byte) (*openpgp.Entity, error) {
	var el openpgp.EntityList
	var err error
	r := x.Do("parse", func() { el, err = openpgp.ReadKeyRing(bytes.NewReader(packet)) })
	if !r.OK() {
		return nil, fmt.Errorf("parsing: %s", r)
	}
	if err != nil {
		return nil, err
	}
	if len(el) != 1 {
		return nil, fmt.Errorf("%d keys in one packet", len(el))
	}
	return el[0], nil
}

// ---- disk faults ----

// diskPlan injects one kind of fault into a disk.
type diskPlan struct {
	what    string
	hit     bool // some operation failed
	kill    bool
	readHit bool
	opened  map[string]bool
}

// writeFaults draws a fault for programs that write under dir.
func (x *Ctx) writeFaults(d *rt.Disk, dir string, total int) *diskPlan {
	p := &diskPlan{opened: map[string]bool{}}
	count := map[string]int{}
	sel := func(path string) bool { return strings.HasPrefix(path, dir) }
	kind := x.Choice("wfault", 7)
	at := x.Choice("wfaultat", 40)
	if x.Choice("wfaultearly", 3) == 0 {
		at = x.Choice("wfaultat2", 4)
	}
	part := func(size int) int {
		switch x.Choice("wpart", 3) {
		case 0:
			return 0
		case 1:
			return size
		}
		return x.Choice("wpartn", size+1)
	}
	once := x.Choice("wonce", 2) == 0
	var errno error = syscall.EIO
	if x.Choice("werrno", 3) == 2 {
		errno = syscall.ENOSPC
	}
	switch kind {
	case 0:
		return p
	case 1:
		p.what = "full disk"
		d.Free = int64(x.Choice("wfree", total+200))
		if x.Choice("wfreelow", 4) == 3 {
			d.Free = int64(x.Choice("wfree2", 300))
		}
		p.hit = true
	case 2, 3:
		p.what = "write error"
		p.kill = kind == 3
		if p.kill {
			p.what = "crash during a write"
		}
	case 4:
		p.what = "close error"
	case 5:
		p.what = "open error"
		at = x.Choice("wopenat", 3)
	case 6:
		p.what = "slow disk"
	}
	d.Hook = func(n *rt.Node, op, path string, size int) *rt.DiskFault {
		if !sel(path) {
			return nil
		}
		count[op]++
		k := count[op] - 1
		failing := k == at || k > at && !once
		switch {
		case kind == 2 && op == "write" && failing:
			p.hit = true
			x.Count("fault:disk-write-error")
			return &rt.DiskFault{Err: errno, Part: part(size)}
		case kind == 3 && (op == "write" || op == "close" || op == "sync") && failing:
			p.hit = true
			x.Count("fault:disk-crash")
			return &rt.DiskFault{Kill: true, Part: part(size)}
		case kind == 4 && op == "close":
			p.hit = true
			x.Count("fault:disk-close-error")
			return &rt.DiskFault{Err: errno}
		case kind == 5 && op == "open" && failing:
			p.hit = true
			x.Count("fault:disk-open-error")
			return &rt.DiskFault{Err: syscall.EACCES}
		case kind == 6 && k%3 == 0:
			return &rt.DiskFault{Delay: time.Second}
		}
		if op == "open" {
			p.opened[path] = true
		}
		return nil
	}
	return p
}

// readFaults draws a fault for programs that read under dir.
func (x *Ctx) readFaults(d *rt.Disk, dir string, total int) *diskPlan {
	p := &diskPlan{}
	kind := x.Choice("rfault", 5)
	bad := x.Choice("rbad", total+1)
	seen := 0
	opens := 0
	openAt := x.Choice("ropen", 4)
	shorts := x.RandFor("shorts")
	sticky := x.Choice("rsticky", 2) == 0
	switch kind {
	case 0, 1:
		return p
	case 2:
		p.what = "read error"
	case 3:
		p.what = "short reads"
	case 4:
		p.what = "open error"
	}
	d.Hook = func(n *rt.Node, op, path string, size int) *rt.DiskFault {
		if !strings.HasPrefix(path, dir) {
			return nil
		}
		switch {
		case kind == 2 && op == "read" && (!p.readHit && seen+size > bad || p.readHit && sticky):
			x.Count("fault:disk-read-error")
			part := max(0, bad-seen)
			if p.readHit {
				part = 0
			}
			p.readHit, p.hit = true, true
			seen += part
			return &rt.DiskFault{Err: syscall.EIO, Part: part}
		case kind == 3 && op == "read" && size > 1:
			x.Count("fault:disk-short-read")
			return &rt.DiskFault{Short: true, Part: 1 + shorts.Intn(size)}
		case kind == 4 && op == "open":
			if opens++; opens-1 == openAt {
				p.readHit, p.hit = true, true
				x.Count("fault:disk-open-error")
				return &rt.DiskFault{Err: syscall.EMFILE}
			}
		}
		if op == "read" {
			seen += size
		}
		return nil
	}
	return p
}

// ---- C15 ----

func c15(x *Ctx) {
	switch x.Choice("program", 5) {
	case 0, 1:
		c15write(x)
	case 2, 3:
		c15chunks(x)
	case 4:
		c15read(x)
	}
}

// entitiesOf parses fixtures in the process they are used in.
func entitiesOf(fx []*Fixture) map[string]*openpgp.Entity {
	m := map[string]*openpgp.Entity{}
	for _, f := range fx {
		el, err := openpgp.ReadKeyRing(bytes.NewReader(f.Raw))
		if err != nil || len(el) != 1 {
			panic("fixture")
		}
		el[0].Subkeys = nil
		m[f.Email] = el[0]
	}
	return m
}

// c15write: the curated keys are written to the full file and read back.
func c15write(x *Ctx) {
	fx := x.someFixtures(x.Pick("nkeys", 5, 0, 1, 2, 12, 30))
	if x.Choice("withlarge", 4) == 3 {
		have := map[string]bool{}
		for _, f := range fx {
			have[f.Email] = true
		}
		for _, f := range fixByKind["large"] {
			if !have[f.Email] {
				fx = append(fx, f)
			}
		}
	}
	total := 100
	for _, f := range fx {
		total += len(f.Raw)
	}
	const file = "/work/sks/sks-full.pgp"
	d := rt.NewDisk()
	d.Mkdir("/work/sks")
	old := []pgp.Key(nil)
	hasOld := x.Choice("old", 3) == 2
	if hasOld {
		old = x.someKeys(x.Pick("nold", 3, 10, 40))
		putKeyFile(d, file, old)
	}
	n := x.NewNode("curator")
	n.Disk = d
	plan := x.writeFaults(d, "/work/sks", total)
	// (a program may write elsewhere and rename)
	tries := map[string][]byte{}
	replaced := false
	d.OnWrite = func(n *rt.Node, path string, off int64, data []byte, part int) {
		t := tries[path]
		tries[path] = append(t[:min(len(t), int(off))], data...)
	}
	d.OnRename = func(from, to string) {
		tries[to] = tries[from]
		delete(tries, from)
		replaced = replaced || to == file
	}
	var werr error
	returned := false
	n.Start(func() {
		werr = pgp.WriteKeysOnDisk("/work/sks", entitiesOf(fx))
		returned = true
	})
	x.Check(n.WaitExit(time.Hour), "write-hangs", "writing has not ended")
	d.Hook, d.OnWrite, d.OnRename, d.Free = nil, nil, nil, -1
	x.Check(!n.Crashed, "write-crash", "writing %d keys (%s): %s\n%s", len(fx), plan.what, n.CrashMsg, n.CrashStack)
	x.Check(returned || n.Killed || n.ExitCode != 0, "write-exit", "the writer ended without a result")
	wrote := returned && werr == nil
	lost := false
	if n.Killed && x.Choice("powerloss", 2) == 1 {
		x.Count("fault:power-loss")
		lost = true
		d.PowerLoss(func(p string, synced, cur int) int { return synced + x.Choice("cut", cur-synced+1) })
	}
	x.Tracef("written: error %v, killed %v, fault %q hit %v", werr, n.Killed, plan.what, plan.hit)
	meant, merr := decodeKeys(tries[file])
	if !plan.hit {
		x.Check(wrote, "fails", "writing %d keys fails on a healthy disk: %v", len(fx), werr)
		x.Check(merr == nil, "unreadable", "the file written on a healthy disk cannot be read: %v", merr)
	}
	// what was meant to be written is made of the given keys
	byMail := map[string]*Fixture{}
	for _, f := range fx {
		byMail[f.Email] = f
	}
	done := map[string]bool{}
	for _, k := range meant {
		f := byMail[k.ID]
		x.Check(f != nil && !done[k.ID], "invented", "key %q written, of %d given keys", k.ID, len(fx))
		done[k.ID] = true
		e, err := x.parseOne(k.Packet)
		x.Check(err == nil, "unreadable-key", "the packet written for %s: %v", k.ID, err)
		x.Check(idOf(e).String() == idOfFixture(f).String() && e.PrimaryKey.CreationTime.Unix() == f.Created, "altered", "key %q: wrote %v, given %v", k.ID, idOf(e), idOfFixture(f))
	}
	if wrote && !plan.hit {
		for _, f := range fx {
			x.Check(done[f.Email] || len(f.Raw) > 8192, "dropped", "writing reports success but %s (%d bytes) was not written", f.Email, len(f.Raw))
		}
	}
	if wrote {
		// success means that all of it is in the file, whatever happened
		b, _ := d.Get(file)
		in, err := decodeKeys(b)
		x.Check(err == nil && sameKeys(in, meant), "success-lost", "writing reports success (fault %q), the file holds %s (%v) of %s", plan.what, keyNames(in), err, keyNames(meant))
		for _, f := range fx {
			x.Check(done[f.Email] || len(f.Raw) > 8192, "success-lost", "writing reports success (fault %q) but %s (%d bytes) was not written", plan.what, f.Email, len(f.Raw))
		}
	}
	x.readBack(d, []string{file}, func(got []pgp.Key, rerr error, faulty bool) {
		if !plan.hit && !faulty {
			x.Check(rerr == nil && sameKeys(got, meant), "not-read-back", "wrote %s, read back %s, %v", keyNames(meant), keyNames(got), rerr)
			return
		}
		if rerr != nil {
			return
		}
		if hasOld && !plan.opened[file] && !replaced && !lost {
			x.Check(sameKeys(got, old), "altered", "the file was never opened for writing, yet it reads as %s and was %s", keyNames(got), keyNames(old))
			return
		}
		if hasOld && lost && len(meant) == 0 && isPrefix(got, old) {
			return
		}
		x.Check(isPrefix(got, meant), "altered", "fault %q: tried to write %s, the file reads as %s without an error", plan.what, keyNames(meant), keyNames(got))
	})
	x.Cover("write n=%d fault=%s hit=%v wrote=%v old=%v", len(fx), plan.what, plan.hit, wrote, hasOld)
	x.Nontrivial()
}

func isPrefix(a, b []pgp.Key) bool { return len(a) <= len(b) && sameKeys(a, b[:len(a)]) }

// readBack reads key files with the code under test, at times with faults.
func (x *Ctx) readBack(d *rt.Disk, files []string, judge func(ks []pgp.Key, err error, faulty bool)) {
	total := 0
	for _, f := range files {
		b, _ := d.Get(f)
		total += len(b)
	}
	for i := 0; i < 2; i++ {
		dd := d.Clone()
		plan := &diskPlan{}
		if i == 1 {
			plan = x.readFaults(dd, "/work", total)
			if plan.what == "" {
				break
			}
		}
		n := x.NewNode(fmt.Sprintf("reader%d", i))
		n.Disk = dd
		var ks []*pgp.Key
		var err error
		ok := false
		n.Start(func() { ks, err = pgp.LoadKeysFromDisk(files); ok = true })
		x.Check(n.WaitExit(time.Hour), "read-hangs", "reading has not ended")
		x.Check(!n.Crashed && ok, "read-crash", "reading %d files (%s): %s\n%s", len(files), plan.what, n.CrashMsg, n.CrashStack)
		if plan.readHit {
			x.Check(err != nil, "read-error-lost", "a read failed (%s), yet %d keys come back and no error", plan.what, len(ks))
		}
		judge(deref(ks), err, plan.hit)
		x.Cover("read fault=%s hit=%v", plan.what, plan.hit)
	}
}

// c15chunks: the data program splits the full file.
func c15chunks(x *Ctx) {
	keys := x.someKeys(x.Pick("nkeys", 5, 1, 0, 12, 30))
	big := x.Chance("big", 1)
	if big {
		// more than one chunk needs more than 100 MB
		for i, n := range []int{45 << 20, 57 << 20, 10 << 20} {
			p := make([]byte, n)
			for j := 0; j < n; j += 4096 {
				p[j] = byte(i + 1 + j/4096)
			}
			keys = append(keys, pgp.Key{ID: fmt.Sprintf("big%d@x.org", i), Packet: p})
		}
		keys = append(keys, x.someKeys(3)...)
		x.Cover("chunks big")
	}
	d := rt.NewDisk()
	d.Mkdir("/work/out")
	putKeyFile(d, "/work/in/sks-full.pgp", keys)
	inb, _ := d.Get("/work/in/sks-full.pgp")
	if x.Choice("oldchunk", 4) == 3 {
		putKeyFile(d, "/work/out/sks-000.pgp", x.someKeys(20))
	}
	cut := false
	if x.Choice("cutinput", 5) == 4 && len(inb) > 0 && !big {
		inb = inb[:x.Choice("cutat", len(inb))]
		d.Put("/work/in/sks-full.pgp", inb)
		cut = true
		x.Count("fault:truncated-input")
	}
	given, gerr := decodeKeys(inb)
	n := x.NewNode("data")
	n.Disk = d
	n.Args = []string{"data", "-cmd=genChunks", "-path=/work/in/sks-full.pgp", "-out=/work/out"}
	plan := &diskPlan{}
	if !big {
		if x.Choice("side", 3) == 0 {
			plan = x.readFaults(d, "/work/in", len(inb))
		} else {
			plan = x.writeFaults(d, "/work/out", len(inb))
		}
	}
	replaced := false
	d.OnRename = func(from, to string) { replaced = true }
	n.Start(mainData)
	x.Check(n.WaitExit(time.Hour), "split-hangs", "splitting has not ended")
	d.Hook, d.OnRename, d.Free = nil, nil, -1
	x.Check(!n.Crashed, "split-crash", "splitting %d keys (%s): %s\n%s", len(keys), plan.what, n.CrashMsg, n.CrashStack)
	ok := n.ExitCode == 0 && !n.Killed
	if !plan.hit && gerr == nil {
		x.Check(ok, "fails", "splitting %d keys fails (%d %s) though nothing went wrong", len(given), n.ExitCode, n.FatalMsg)
	}
	if gerr != nil || plan.readHit {
		x.Check(!ok, "split-error-lost", "the input could not be read in full (%v, %s), yet splitting reports success", gerr, plan.what)
	}
	if n.Killed && x.Choice("powerloss", 2) == 1 {
		x.Count("fault:power-loss")
		d.PowerLoss(func(p string, synced, cur int) int { return synced + x.Choice("cut", cur-synced+1) })
	}
	var files []string
	for _, f := range d.List() {
		if strings.HasPrefix(f, "/work/out/sks-") {
			files = append(files, f)
		}
	}
	healthy := ok && !plan.hit
	opened := replaced || plan.what == "" || !plan.hit
	for _, f := range files {
		opened = opened || plan.opened[f]
	}
	if big {
		x.Check(len(files) == 2, "chunks", "%d chunks", len(files))
	}
	x.readBack(d, files, func(got []pgp.Key, rerr error, faulty bool) {
		if ok && !faulty && (healthy || gerr == nil) {
			x.Check(rerr == nil && sameKeys(got, given), "not-read-back", "split %s, read back %s, %v", keyNames(given), keyNames(got), rerr)
		} else if rerr == nil && opened {
			x.Check(isPrefix(got, given), "altered", "fault %q: the chunks of %s read as %s", plan.what, keyNames(given), keyNames(got))
		}
	})
	x.Cover("split n=%d fault=%s hit=%v ok=%v cut=%v", len(keys), plan.what, plan.hit, ok, cut)
	x.Nontrivial()
}

// c15read: files in any split, whole or torn, with all the loaders.
func c15read(x *Ctx) {
	keys := x.someKeys(x.Pick("nkeys", 12, 10, 25, 40))
	d := rt.NewDisk()
	nf := x.Pick("nfiles", 1, 2, 3, 5)
	var files []string
	var want []pgp.Key
	lo := 0
	bad := false
	for i := 0; i < nf; i++ {
		hi := lo + x.Choice("split", len(keys)-lo+1)
		if i == nf-1 {
			hi = len(keys)
		}
		p := fmt.Sprintf("/work/keys/f%d.pgp", i)
		putKeyFile(d, p, keys[lo:hi])
		b, _ := d.Get(p)
		if x.Choice("tear", 8) == 7 && len(b) > 0 {
			x.Count("fault:torn-file")
			b = b[:x.Choice("tearat", len(b))]
			d.Put(p, b)
		}
		ks, err := decodeKeys(b)
		want = append(want, ks...)
		if err != nil {
			bad = true
		}
		files = append(files, p)
		lo = hi
	}
	x.readBack(d, files, func(got []pgp.Key, rerr error, faulty bool) {
		if !faulty {
			x.Check((rerr != nil) == bad, "torn", "reading %d files, one torn within a record: %v; error %v", nf, bad, rerr)
		}
		if rerr == nil {
			x.Check(sameKeys(got, want), "not-read-back", "stored %s, read back %s", keyNames(want), keyNames(got))
		}
	})
	// the parsing loader
	n := x.NewNode("parser").Light()
	n.Disk = d
	var es []*openpgp.Entity
	var err error
	r := n.Call(time.Hour, func() { es, err = pgp.LoadAndParseKeys(files) })
	x.Check(r.OK(), "parse-crash", "loading and parsing: %s\n%s", r, r.Stack)
	x.Check((err != nil) == bad, "parse", "loading and parsing %d keys (torn: %v): %v", len(want), bad, err)
	if err == nil {
		x.Check(len(es) == len(want), "parse", "%d keys stored, %d parsed", len(want), len(es))
		for i, k := range want {
			e, perr := x.parseOne(k.Packet)
			x.Check(perr == nil && es[i] != nil && idOf(es[i]).String() == idOf(e).String(), "altered", "key %d (%s) parsed as %v", i, k.ID, es[i])
		}
	}
	x.Cover("read nf=%d torn=%v", nf, bad)
	x.Nontrivial()
}

// ---- C16 ----

// lookupSet draws stored keys, at times with a bucket that stays empty.
func (x *Ctx) lookupSet(n int) []*Fixture {
	all := x.someFixtures(len(fixtures))
	var fx []*Fixture
	var big []*Fixture
	for _, f := range all {
		if len(f.Raw) > 8192 {
			continue
		}
		if f.Kind == "large" {
			big = append(big, f)
			continue
		}
		fx = append(fx, f)
	}
	if len(fx) > n {
		fx = fx[:n]
	}
	if x.Choice("withlarge", 5) == 4 {
		fx = append(fx, big...)
	}
	return fx
}

// someLookup draws an address to look up in a set of keys.
func (x *Ctx) someLookup(fx []*Fixture) string {
	switch x.Choice("lookupkind", 6) {
	case 0, 1:
	case 2: // an address of a key under which it is not stored
		for t := 0; t < 20; t++ {
			f := fx[x.Choice("alias", len(fx))]
			if len(f.IDs) < 2 {
				continue
			}
			for _, id := range f.IDs {
				a, b := strings.LastIndex(id, "<"), strings.LastIndex(id, ">")
				if a >= 0 && b > a && !strings.EqualFold(id[a+1:b], f.Email) {
					return strings.ToLower(id[a+1 : b])
				}
			}
		}
	case 3: // another person's
		all := x.someFixtures(len(fixtures))
		return all[x.Choice("other", len(all))].Email
	case 4: // close to one that is stored
		m := fx[x.Choice("near", len(fx))].Email
		switch x.Choice("nearhow", 5) {
		case 0:
			return m[:len(m)-1]
		case 1:
			return m + "x"
		case 2:
			return "x" + m
		case 3:
			return m[1:]
		}
		return strings.Replace(m, "@", "@@", 1)
	case 5:
		return x.PickS("strange", "", "@", "nobody@nowhere.org", strings.Repeat("a", 300)+"@x.org", "\x00", "é@x.org", "a", "x@y", "<alice@epfl.ch>")
	}
	return fx[x.Choice("stored", len(fx))].Email
}

func findFix(fx []*Fixture, mail string) *Fixture {
	for _, f := range fx {
		if f.Email == mail {
			return f
		}
	}
	return nil
}

// c16lib: the steps of a lookup on the library.
func c16lib(x *Ctx) {
	n := x.Pick("nkeys", 30, 10, 12, 20, 50, 70, 110, 150)
	fx := x.lookupSet(n)
	merkle, reb := x.Choice("merkle", 2) == 1, x.Choice("rebalanced", 2) == 1
	if x.Choice("holes", 3) == 2 {
		// leave out what falls into some bucket, in favour of others
		rows, cols := dims(len(fx), reb)
		nb := rows * cols
		if nb > 2 {
			hole := uint32(x.Choice("hole", nb))
			var keep []*Fixture
			for _, f := range fx {
				if database.HashToIndex(f.Email, nb) != hole {
					keep = append(keep, f)
				}
			}
			for _, f := range x.someFixtures(len(fixtures)) {
				if len(keep) < len(fx) && findFix(keep, f.Email) == nil && len(f.Raw) <= 8192 && database.HashToIndex(f.Email, nb) != hole {
					keep = append(keep, f)
				}
			}
			if len(keep) >= 10 {
				fx = keep
			}
		}
	}
	d := rt.NewDisk()
	paths := x.keyFiles(d, toKeys(fx), x.Pick("nfiles", 1, 2, 4))
	k := x.Pick("servers", 2, 3, 4)
	p := &pointDB{merkle: merkle}
	nd := x.NewNode("loader").Light()
	nd.Disk = d
	var err error
	r := nd.Call(time.Hour, func() {
		if merkle {
			p.db, err = database.GenerateRealKeyMerkle(paths, reb)
		} else {
			p.db, err = database.GenerateRealKeyBytes(paths, reb)
		}
	})
	x.Check(r.OK() && err == nil, "load", "building the database of %d keys: %s %v\n%s", len(fx), r, err, r.Stack)
	servers := x.pointServers(p, k, "server")
	link := x.drawLink()
	nb := p.db.NumRows * p.db.NumColumns
	x.Check(nb > 0, "empty-db", "%d keys, %dx%d buckets", len(fx), p.db.NumRows, p.db.NumColumns)
	load := make([]int, nb)
	for _, f := range fx {
		load[database.HashToIndex(f.Email, nb)]++
	}
	info := p.db.Info
	var acts []func()
	for c := 0; c < x.Pick("clients", 1, 2); c++ {
		cn := x.NewNode(fmt.Sprintf("client%d", c)).Light()
		var cl *client.PIR
		cn.Call(time.Hour, func() { cl = client.NewPIR(pointRnd(0), &info) })
		acts = append(acts, func() {
			for q := 0; q <= x.Choice("lookups", 8); q++ {
				mail := x.someLookup(fx)
				f := findFix(fx, mail)
				var qs [][]byte
				var err error
				r := cn.Call(time.Hour, func() { qs, err = cl.QueryBytes(be4(int(database.HashToIndex(mail, nb))), k) })
				x.Check(r.OK() && err == nil, "query", "%q: %s %v", mail, r, err)
				ans := x.shuffle("order", x.Honest(servers, x.Ask(servers, qs, link)))
				var e *openpgp.Entity
				var rerr error
				arm := ""
				r = cn.Call(time.Hour, func() {
					var v interface{}
					v, err = cl.ReconstructBytes(ans)
					if err == nil {
						e, rerr = pgp.RecoverKeyFromBlock(database.UnPadBlock(v.([]byte)), mail)
						if rerr == nil {
							arm, rerr = pgp.ArmorKey(e)
						}
					}
				})
				b := load[database.HashToIndex(mail, nb)]
				x.Check(r.OK(), "crash", "looking up %q (bucket of %d keys, stored: %v): %s\n%s", mail, b, f != nil, r, r.Stack)
				x.Check(err == nil, "rejected", "looking up %q: %v", mail, err)
				x.Cover("stored=%v empty=%v shared=%v merkle=%v", f != nil, b == 0, b > 1, merkle)
				if f == nil {
					x.Check(rerr != nil, "invented-key", "%q is not stored, yet the lookup gives %s", mail, armorIDs(arm))
					continue
				}
				x.Check(rerr == nil, "not-found", "%q is stored (bucket of %d keys), yet: %v", mail, b, rerr)
				ks, aerr := armored(arm)
				x.Check(aerr == nil && len(ks) == 1 && ks[0].String() == idOfFixture(f).String(), "wrong-key", "%q: got %v (%v), stored %v", mail, ks, aerr, idOfFixture(f))
			}
		})
	}
	x.Par(acts...)
	x.Nontrivial()
}

func armorIDs(s string) string {
	ks, err := armored(s)
	return fmt.Sprint(ks, err)
}

func dims(n int, reb bool) (int, int) {
	b := n / 10
	if !reb {
		return 1, b
	}
	s := 0
	for s*s < b {
		s++
	}
	return s, s
}

// c16prog: lookups through the programs.
func c16prog(x *Ctx) {
	fx := x.lookupSet(x.Pick("nkeys", 20, 10, 40, 70))
	nf := x.Pick("nfiles", 1, 2, 3)
	if x.Choice("viaweb", 3) == 0 {
		x.setDate()
		w := &webWorld{x: x}
		w.pt = x.prepare(x.PickS("pscheme", "pointVPIR", "pointPIR"), webPoint, fx, nf)
		w.cx = x.prepare("complexVPIR", webComplex, fx[:10], 1)
		w.pt.up()
		w.cx.up()
		if x.Choice("inter", 2) == 1 {
			s := w.session("inter")
			for i := 0; i <= x.Choice("lookups", 5); i++ {
				j := &job{d: w.pt, mail: x.someLookup(fx)}
				j.what = "the key of " + j.mail
				s.lookup(j)
			}
			s.start()
			s.judge(true)
			x.Nontrivial()
			x.Cover("interactive")
			return
		}
		w.startFront()
		for i := 0; i <= x.Choice("lookups", 6); i++ {
			j := &job{d: w.pt, mail: x.someLookup(fx)}
			j.what = fmt.Sprintf("the key of %q", j.mail)
			res := w.post("/retrieve", url.Values{"email": {j.mail}}, 4*time.Hour)
			w.alive(j.what)
			if res.Err != nil || res.Status != 200 {
				x.Check(x.stalled() || !j.defined(), "fails", "%s: %v %d %q", j.what, res.Err, res.Status, res.Body)
				continue
			}
			if strings.Contains(res.Body, "BEGIN PGP") {
				ks, err := armored(res.Body)
				j.checkKey(ks, err, res.Body)
			} else {
				x.Check(!j.defined(), "not-found", "%s: %q", j.what, res.Body)
			}
			x.Cover("web stored=%v", j.defined())
		}
		x.Nontrivial()
		return
	}
	d := x.prepare(x.PickS("scheme", "pointVPIR", "pointPIR"), x.someAddrs(x.Pick("servers", 2, 3, 4), false), fx, nf)
	d.up()
	for i := 0; i <= x.Choice("lookups", 4); i++ {
		j := &job{d: d, mail: x.someLookup(fx)}
		if strings.HasPrefix(j.mail, "-") || j.mail == "" {
			continue
		}
		j.what = fmt.Sprintf("the key of %q", j.mail)
		d.cli(fmt.Sprintf("client%d", i), j).finish(true)
		x.Cover("cli stored=%v", j.defined())
	}
	d.checkServers()
	x.Nontrivial()
}

// ---- C18 ----

// readable says whether a dumped key can be read at all, alone.
func (x *Ctx) readable(raw []byte) bool {
	ok := false
	x.Do("readable", func() {
		el, err := openpgp.ReadKeyRing(bytes.NewReader(raw))
		ok = err == nil && len(el) == 1
	})
	return ok
}

// c18 curates a dump.
func c18(x *Ctx) {
	type entry struct {
		f   *Fixture
		raw []byte
		bad bool
	}
	r := x.RandFor("dump")
	n := x.Pick("nkeys", 10, 1, 3, 25, 60, 120)
	var es []entry
	perm := r.Perm(len(fixtures))
	groups := x.Choice("groups", 2) == 1
	for _, i := range perm {
		f := &fixtures[i]
		if groups && f.Kind != "multi" && f.Kind != "revoked" && f.Kind != "rev-live" && r.Intn(4) > 0 {
			continue
		}
		es = append(es, entry{f: f, raw: f.Raw})
		if len(es) >= n {
			break
		}
	}
	// some keys are damaged
	if x.Choice("damage", 3) == 2 {
		for i := range es {
			if r.Intn(5) == 0 && es[i].f.Kind == "single" {
				es[i].raw = append([]byte{}, es[i].raw...)
				// near the end of the key, where its last signature is
				es[i].raw[len(es[i].raw)-1-r.Intn(20)] ^= byte(1 << uint(r.Intn(8)))
				es[i].bad = !x.readable(es[i].raw)
				x.Count("fault:damaged-key")
			}
		}
	}
	// the same key may occur twice
	if x.Choice("twice", 4) == 3 && len(es) > 0 {
		es = append(es, es[r.Intn(len(es))])
	}
	// what has to come out
	type cand struct {
		created int64
		ok      []string
	}
	best := map[string]*cand{}
	for _, e := range es {
		if e.bad || e.f.Revoked || e.f.Email == "" {
			continue
		}
		id := idOfFixture(e.f)
		c := best[e.f.Email]
		switch {
		case c == nil || c.created < e.f.Created:
			best[e.f.Email] = &cand{created: e.f.Created, ok: []string{id.String()}}
		case c.created == e.f.Created:
			c.ok = append(c.ok, id.String())
		}
	}
	isLarge := func(m string) bool {
		for _, e := range es {
			if e.f.Email == m && len(e.f.Raw) > 8192 {
				return true
			}
		}
		return false
	}
	// damaged keys whose damage leaves them partly readable could count as
	// readable or not: their addresses are not judged
	vague := map[string]bool{}
	for _, e := range es {
		if !bytes.Equal(e.raw, e.f.Raw) {
			vague[e.f.Email] = true
		}
	}
	// two curations of the same dump, differently laid out
	var outs []map[string]string
	for round := 0; round < 2; round++ {
		d := rt.NewDisk()
		nf := x.Pick("nfiles", 1, 2, 3, 6)
		parts := make([][]byte, nf)
		// a file without any readable key may stop the curation
		good, hurt := make([]int, nf), make([]bool, nf)
		for _, i := range r.Perm(len(es)) {
			k := r.Intn(nf)
			parts[k] = append(parts[k], es[i].raw...)
			if !bytes.Equal(es[i].raw, es[i].f.Raw) {
				hurt[k] = true
			} else {
				good[k]++
			}
		}
		var files []string
		total := 0
		for k := range parts {
			p := fmt.Sprintf("/work/dump/sks-dump-%04d.pgp", k)
			d.Put(p, parts[k])
			files = append(files, p)
			total += len(parts[k])
		}
		mayFail := false
		for k := range parts {
			mayFail = mayFail || hurt[k] && good[k] == 0
		}
		d.Put("/work/dump/README.txt", []byte("not a dump"))
		d.Mkdir("/work/out")
		plan := &diskPlan{}
		if round == 1 {
			plan = x.readFaults(d, "/work/dump", total)
		}
		nd := x.NewNode(fmt.Sprintf("data%d", round))
		nd.Disk = d
		nd.Loc = x.zone("zone")
		var got []pgp.Key
		if x.Choice("program", 2) == 0 {
			nd.Args = []string{"data", "-cmd=parseDump", "-path=/work/dump", "-out=/work/out"}
			nd.Start(mainData)
			x.Check(nd.WaitExit(time.Hour), "hangs", "curation has not ended")
			x.Check(!nd.Crashed, "crash", "curating %d keys (%s): %s\n%s", len(es), plan.what, nd.CrashMsg, nd.CrashStack)
			if plan.readHit {
				x.Check(nd.ExitCode != 0, "read-error-lost", "a read failed (%s), yet curation reports success", plan.what)
				continue
			}
			if nd.ExitCode != 0 && mayFail {
				x.Cover("only damaged keys in a file")
				continue
			}
			x.Check(nd.ExitCode == 0, "fails", "curating %d keys in %d files fails: %s", len(es), nf, nd.FatalMsg)
			d.Hook = nil
			b, ok := d.Get("/work/out/sks-full.pgp")
			x.Check(ok, "no-output", "curation wrote no file: %v", d.List())
			var err error
			got, err = decodeKeys(b)
			x.Check(err == nil, "unreadable", "the curated file cannot be read: %v", err)
		} else {
			for i := len(files) - 1; i > 0; i-- {
				j := x.Choice("file", i+1)
				files[i], files[j] = files[j], files[i]
			}
			var m map[string]*openpgp.Entity
			var err error
			ok := false
			nd.Start(func() {
				m, err = pgp.AnalyzeKeyDump(files)
				if err == nil {
					var mails []string
					for mail := range m {
						mails = append(mails, mail)
					}
					sort.Strings(mails)
					for _, mail := range mails {
						var b bytes.Buffer
						if m[mail].Serialize(&b) != nil {
							b.Reset()
						}
						got = append(got, pgp.Key{ID: mail, Packet: b.Bytes()})
					}
				}
				ok = true
			})
			x.Check(nd.WaitExit(time.Hour), "hangs", "curation has not ended")
			x.Check(!nd.Crashed && ok, "crash", "curating %d keys (%s): %s\n%s", len(es), plan.what, nd.CrashMsg, nd.CrashStack)
			if plan.readHit {
				x.Check(err != nil, "read-error-lost", "a read failed (%s), yet curation reports success", plan.what)
				continue
			}
			if err != nil && mayFail {
				x.Cover("only damaged keys in a file")
				continue
			}
			x.Check(err == nil, "fails", "curating %d keys in %d files fails: %v", len(es), nf, err)
		}
		out := map[string]string{}
		for _, k := range got {
			_, dup := out[k.ID]
			x.Check(!dup, "twice", "%q has two curated keys", k.ID)
			if vague[k.ID] {
				out[k.ID] = ""
				continue
			}
			c := best[k.ID]
			x.Check(c != nil, "invented", "a key was curated for %q, which has none", k.ID)
			e, err := x.parseOne(k.Packet)
			x.Check(err == nil, "unreadable-key", "the curated key of %q: %v", k.ID, err)
			id := idOf(e).String()
			hit := false
			for _, s := range c.ok {
				hit = hit || s == id
			}
			x.Check(hit, "wrong-key", "%q: curated %s, a freshest one is %v", k.ID, id, c.ok)
			x.Check(len(e.Subkeys) == 0, "subkeys", "the curated key of %q has %d subkeys", k.ID, len(e.Subkeys))
			out[k.ID] = id
			if len(c.ok) > 1 {
				x.Cover("tie")
			}
		}
		for m := range best {
			_, ok := out[m]
			x.Check(ok || vague[m] || isLarge(m), "dropped", "%q (of %d keys in %d files) has a usable key and none was curated", m, len(es), nf)
		}
		outs = append(outs, out)
		x.Cover("nf=%d fault=%s", nf, plan.what)
	}
	if len(outs) == 2 {
		for m := range best {
			if !vague[m] && !isLarge(m) && len(best[m].ok) == 1 {
				x.Check(outs[0][m] == outs[1][m], "differs", "%q: one layout of the dump gives %s, another %s", m, outs[0][m], outs[1][m])
			}
		}
	}
	x.Cover("n=%d", n)
	x.Nontrivial()
}

// ---- C13 ----

// picture renders a value completely, following pointers.
func picture(v reflect.Value, b *bytes.Buffer, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil;")
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		fmt.Fprintf(b, "T%d;", v.Interface().(time.Time).UnixNano())
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		if v.Kind() == reflect.Interface && v.Type() == reflect.TypeOf((*group.Group)(nil)).Elem() {
			fmt.Fprintf(b, "G%v;", v.Interface())
			return
		}
		picture(v.Elem(), b, depth+1)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "B%x;", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			picture(v.Index(i), b, depth+1)
		}
		b.WriteString("]")
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s=", v.Type().Field(i).Name)
			picture(v.Field(i), b, depth+1)
		}
		b.WriteString("}")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var e bytes.Buffer
			picture(k, &e, depth+1)
			e.WriteString("->")
			picture(v.MapIndex(k), &e, depth+1)
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d;", v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v;", v.Bool())
	case reflect.Float64, reflect.Float32:
		fmt.Fprintf(b, "%v;", v.Float())
	default:
		fmt.Fprintf(b, "?%s;", v.Kind())
	}
}

func pictureOf(v interface{}) string {
	var b bytes.Buffer
	picture(reflect.ValueOf(v), &b, 0)
	return b.String()
}

// diffAt names the place where two pictures part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-80)
	return fmt.Sprintf("at %d of %d and %d: ...%s | ...%s", i, len(a), len(b), a[lo:min(len(a), i+40)], b[lo:min(len(b), i+40)])
}

// seededReader is a stream of pseudo-random bytes.
type seededReader struct{ r *rand.Rand }

func newSeeded(seed int64) *seededReader { return &seededReader{rand.New(rand.NewSource(seed))} }

func (s *seededReader) Read(b []byte) (int, error) { return s.r.Read(b) }

// environment gives a node circumstances of its own.
func (x *Ctx) environment(n *rt.Node) {
	n.NCPU = x.Pick("ncpu", 2, 1, 3, 4, 5, 7, 8, 12, 16, 64, 100)
	n.Loc = x.zone("zone")
	n.Skew = time.Duration(x.Choice("skew", 21)-10) * 24 * time.Hour
	n.SeedRand(int64(x.Choice("mathseed", 1<<30)), int64(x.Choice("cryptoseed", 1<<30)))
	if x.Choice("env", 3) == 2 {
		n.Env["GOMAXPROCS"] = fmt.Sprint(1 + x.Choice("gomaxprocs", 8))
		n.Env["TZ"] = x.PickS("tz", "UTC", "Asia/Tokyo", "America/New_York")
		n.Env["LANG"] = x.PickS("lang", "C", "tr_TR.UTF-8", "de_CH.UTF-8")
		n.Env["HOME"] = "/home/u" + fmt.Sprint(x.Choice("home", 9))
	}
}

// c13lib: the same database built by several processes.
func c13lib(x *Ctx) {
	what := ""
	var build func() (interface{}, error)
	d := rt.NewDisk()
	seed := int64(x.RandFor("content").Uint64() >> 1)
	var prgKey utils.PRGKey
	x.RandFor("prg").Read(prgKey[:])
	rnd := func() io.Reader { return utils.NewPRG(&prgKey) }
	if x.Choice("source", 3) == 2 {
		rnd = func() io.Reader { return newSeeded(seed) }
	}
	cols := dimCols[x.Choice("cols", len(dimCols))]
	rows := dimRows[x.Choice("rows", len(dimRows))]
	bl := dimLens[x.Choice("blocklen", len(dimLens))]
	kind := x.Choice("dbkind", 14)
	switch kind {
	case 0, 1, 2, 3, 4, 5:
		fx := x.lookupSet(x.Pick("nkeys", 20, 10, 12, 40, 80))
		paths := x.keyFiles(d, toKeys(fx), x.Pick("nfiles", 1, 2, 3))
		reb := x.Choice("rebalanced", 2) == 1
		switch {
		case kind < 2:
			what = "keys"
			build = func() (interface{}, error) { return database.GenerateRealKeyBytes(paths, reb) }
		case kind < 4:
			what = "keys-merkle"
			build = func() (interface{}, error) { return database.GenerateRealKeyMerkle(paths, reb) }
		default:
			what = "keys-fss"
			build = func() (interface{}, error) { return database.GenerateRealKeyDB(paths) }
		}
	case 6:
		what = "random-bytes"
		build = func() (interface{}, error) {
			return database.CreateRandomBytes(rnd(), rows*cols*bl*8, rows, bl), nil
		}
	case 7:
		what = "random-merkle"
		if rows*cols > 400 {
			rows = 1
		}
		build = func() (interface{}, error) {
			return database.CreateRandomMerkle(rnd(), rows*cols*bl*8, rows, bl), nil
		}
	case 8:
		what = "random-keys"
		n := x.Pick("nids", 50, 1, 3, 200)
		build = func() (interface{}, error) { return database.CreateRandomKeysDB(rnd(), n) }
	case 9, 10, 11:
		what = "elliptic"
		gs := []group.Group{group.P256, group.Ristretto255, group.P384, group.P521}
		g := gs[x.Pick("group", 0, 0, 1, 0, 2, 3)]
		n := x.Pick("dblen", 9, 1, 2, 3, 4, 7, 8, 12, 16, 17, 30, 50, 64, 65, 100)
		sq := x.Choice("squared", 2) == 1
		if kind == 11 && x.Chance("large", 3) {
			n, sq, g = 1024*1024+1+x.Choice("more", 3000), true, group.P256
			rnd = func() io.Reader { return &sparseReader{r: newSeeded(seed).r} }
			what = "elliptic-large"
		}
		build = func() (interface{}, error) {
			return database.CreateRandomEllipticWithDigest(rnd(), n, g, sq), nil
		}
	case 12:
		what = "lwe"
		r, c := x.ssShape()
		build = func() (interface{}, error) { return database.CreateRandomBinaryLWE(rnd(), r, c), nil }
	case 13:
		what = "lwe128"
		r, c := x.ssShape()
		build = func() (interface{}, error) { return database.CreateRandomBinaryLWE128(rnd(), r, c), nil }
	}
	k := x.Pick("servers", 2, 3, 4)
	if what == "elliptic-large" {
		k = 2
	}
	pics := make([]string, k)
	envs := make([]string, k)
	var acts []func()
	one := func(i int, n *rt.Node, name string) string {
		var v interface{}
		var err error
		ok := false
		n.Start(func() { v, err = build(); ok = true })
		x.Check(n.WaitExit(5*time.Hour), "hangs", "building a %s database has not ended", what)
		x.Check(ok && err == nil && !n.Crashed, "build", "%s building a %s database: %v, crash %q, fatal %q\n%s", name, what, err, n.CrashMsg, n.FatalMsg, n.CrashStack)
		return pictureOf(v)
	}
	for i := 0; i < k; i++ {
		i := i
		n := x.NewNode(fmt.Sprintf("server%d", i))
		n.Disk = d.Clone()
		x.environment(n)
		envs[i] = fmt.Sprintf("ncpu %d zone %v clock %v", n.NCPU, n.Loc, n.Skew)
		acts = append(acts, func() {
			x.Sleep(x.within("when", time.Second))
			pics[i] = one(i, n, "a server")
			if x.Choice("restart", 3) == 2 {
				x.Count("fault:restart")
				again := one(i, n, "a restarted server")
				x.Check(again == pics[i], "restart-differs", "%s (%s): a restart builds another database, %s", what, envs[i], diffAt(pics[i], again))
			}
		})
	}
	x.Par(acts...)
	for i := 1; i < k; i++ {
		x.Check(pics[i] == pics[0], "differs", "%s: servers with (%s) and (%s) build different databases, %s", what, envs[0], envs[i], diffAt(pics[0], pics[i]))
	}
	x.Cover("%s k=%d", what, k)
	x.Nontrivial()
}

// c13prog: replicas of the server program over the same files.
func c13prog(x *Ctx) {
	x.setDate()
	d := x.prepare(schemes[x.Choice("scheme", 4)], x.someAddrs(2, false), x.someFixtures(x.Pick("nkeys", 12, 10, 30)), x.Pick("nfiles", 1, 2, 3))
	// replicas of server 0, one after another at the same address
	id := x.Choice("id", 2)
	var first, firstInfo []byte
	var q *rawQuery
	for rep := 0; rep < x.Pick("replicas", 2, 3); rep++ {
		n := d.newServer(id)
		ncpu := n.NCPU
		x.environment(n)
		n.Skew = time.Duration(x.Choice("sk", 5)-2) * time.Hour
		n.Start(mainServer)
		ok := x.WaitListen(d.addrs[id], 2*time.Hour)
		x.Check(ok, "server-start", "replica %d does not come up: %q %q (ncpu %d)", rep, n.CrashMsg, n.FatalMsg, ncpu)
		cn := x.NewNode("user").Light()
		resp, err := x.rpcInfo(cn, d.addrs[id])
		x.Check(err == nil, "info", "database info: %v", err)
		in := infoFrom(resp)
		pic := []byte(pictureOf(in))
		if rep == 0 {
			firstInfo = pic
			q = d.someJob().raw(cn, in)
		}
		x.Check(bytes.Equal(pic, firstInfo), "info-differs", "replicas advertise different parameters: %s", diffAt(string(firstInfo), string(pic)))
		a, err := x.rpcAsk(cn, d.addrs[id], q.qs[id], time.Hour)
		x.Check(err == nil, "refused", "%s: %v", q.what, err)
		if rep == 0 {
			first = a
		}
		x.Check(bytes.Equal(a, first), "answer-differs", "%s: replica %d answers %s and the first %s to the same bytes", q.what, rep, hex.EncodeToString(a[:min(len(a), 40)]), hex.EncodeToString(first[:min(len(first), 40)]))
		if x.Choice("howstop", 2) == 0 {
			n.Kill()
			x.Count("fault:server-kill")
		} else {
			n.Signal(syscall.SIGTERM)
			x.Check(n.WaitExit(2*time.Hour), "does-not-stop", "the replica does not stop")
		}
	}
	x.Cover("program %s", d.scheme)
	x.Nontrivial()
}

func init() {
	disk := "disk (in memory, with errors, short reads and writes, full disk, crash at any write and loss of what was not synchronised), clocks, zones, processor count, environment, randomness, scheduler"
	register(&Property{ID: "C13", Rule: "one run = one kind of database built by 2-4 processes in their own environments (and again after restarts), compared field by field; or 2-3 replicas of the server program asked the same bytes; distinct by the hash of the run's event log",
		Real: "lib/database, lib/merkle, lib/matrix, lib/pgp loading, lib/utils PRG, cmd/grpc/server main", Stub: disk,
		Scenarios: []Scenario{{Name: "library", Weight: 6, Steps: 1 << 31, Run: c13lib}, {Name: "program", Weight: 1, Run: c13prog}}})
	register(&Property{ID: "C15", Rule: "one run = one key set written by the curation writer or split by the data program under one fault plan, or laid out in whole or torn files, and read back with and without faults; distinct by the hash of the run's event log",
		Real: "lib/pgp WriteKeysOnDisk, LoadKeysFromDisk, LoadAndParseKeys, data main genChunks, encoding/gob, go-crypto", Stub: disk,
		Assume:    []string{"a torn write leaves a prefix of the data", "keys above the store's documented limit of 8192 bytes are left out by design"},
		Scenarios: []Scenario{{Name: "store", Weight: 1, Run: c15}}})
	register(&Property{ID: "C16", Rule: "one run = one key set (10-150 keys) as a bucket database on 2-4 servers and 1-9 lookups of stored, absent, alias and near-miss addresses through the library or the programs; distinct by the hash of the run's event log",
		Real: "lib/pgp, lib/database, lib/client, lib/server, cmd/grpc client, web, interactive, manager and server mains", Stub: "transport, disks, clocks, scheduler, randomness",
		Scenarios: []Scenario{{Name: "library", Weight: 3, Run: c16lib}, {Name: "programs", Weight: 2, Run: c16prog}}})
	register(&Property{ID: "C18", Rule: "one run = one dump of 1-120 keys in two layouts over files, curated by the data program or the library, the second time with disk faults; distinct by the hash of the run's event log",
		Real: "data main parseDump, lib/pgp AnalyzeKeyDump and WriteKeysOnDisk, go-crypto", Stub: disk,
		Scenarios: []Scenario{{Name: "dump", Weight: 1, Run: c18}}})
}
