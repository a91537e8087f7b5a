// Command genkeys generates the OpenPGP key fixtures once (they are committed:
// key generation is not repeatable). Built through an overlay, see build.sh.
package main

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/gob"
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/packet"
)

type Fixture struct {
	Raw     []byte // packets as in a dump
	Email   string // lower-cased primary address, empty if none
	Created int64
	Revoked bool
	Kind    string
	Algo    string
	Bits    int
	IDs     []string
}

var dsaParams dsa.Parameters
var cfg = &packet.Config{DefaultHash: crypto.SHA256}

type uidSpec struct {
	name, email string
	primary     bool
	sigTime     time.Time
}

func entity(algo string, bits int, created time.Time, uids []uidSpec, sub bool) *openpgp.Entity {
	now := func() time.Time { return created }
	c := &packet.Config{DefaultHash: crypto.SHA256, RSABits: bits, Time: now}
	e := &openpgp.Entity{Identities: map[string]*openpgp.Identity{}}
	var pa packet.PublicKeyAlgorithm
	switch algo {
	case "rsa":
		x, err := openpgp.NewEntity("x", "", "x@x", c)
		check(err)
		e.PrimaryKey, e.PrivateKey = x.PrimaryKey, x.PrivateKey
		if sub {
			e.Subkeys = x.Subkeys
		}
		pa = packet.PubKeyAlgoRSA
	case "ecdsa":
		cv := elliptic.P256()
		if bits == 384 {
			cv = elliptic.P384()
		}
		if bits == 521 {
			cv = elliptic.P521()
		}
		k, err := ecdsa.GenerateKey(cv, rand.Reader)
		check(err)
		e.PrimaryKey = packet.NewECDSAPublicKey(created, &k.PublicKey)
		e.PrivateKey = packet.NewECDSAPrivateKey(created, k)
		pa = packet.PubKeyAlgoECDSA
	case "dsa":
		k := &dsa.PrivateKey{}
		k.Parameters = dsaParams
		check(dsa.GenerateKey(k, rand.Reader))
		e.PrimaryKey = packet.NewDSAPublicKey(created, &k.PublicKey)
		e.PrivateKey = packet.NewDSAPrivateKey(created, k)
		pa = packet.PubKeyAlgoDSA
	}
	for _, u := range uids {
		uid := packet.NewUserId(u.name, "", u.email)
		st := u.sigTime
		if st.IsZero() {
			st = created
		}
		sig := &packet.Signature{CreationTime: st, SigType: packet.SigTypePositiveCert, PubKeyAlgo: pa, Hash: crypto.SHA256,
			FlagsValid: true, FlagSign: true, FlagCertify: true, IssuerKeyId: &e.PrimaryKey.KeyId}
		if u.primary {
			t := true
			sig.IsPrimaryId = &t
		}
		check(sig.SignUserId(uid.Id, e.PrimaryKey, e.PrivateKey, cfg))
		if e.Identities[uid.Id] != nil {
			panic("dup uid " + uid.Id)
		}
		e.Identities[uid.Id] = &openpgp.Identity{Name: uid.Id, UserId: uid, SelfSignature: sig}
	}
	return e
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func serialize(e *openpgp.Entity, revoke bool) []byte {
	var b bytes.Buffer
	check(e.PrimaryKey.Serialize(&b))
	if revoke {
		sig := &packet.Signature{CreationTime: e.PrimaryKey.CreationTime.Add(time.Hour), SigType: packet.SigTypeKeyRevocation,
			PubKeyAlgo: e.PrimaryKey.PubKeyAlgo, Hash: crypto.SHA256, IssuerKeyId: &e.PrimaryKey.KeyId}
		h := sig.Hash.New()
		e.PrimaryKey.SerializeSignaturePrefix(h)
		var kb bytes.Buffer
		// key material as hashed: body without the packet header
		check(e.PrimaryKey.Serialize(&kb))
		body := kb.Bytes()
		// strip the header: new-format header
		off := 2
		if body[1] >= 192 && body[1] < 224 {
			off = 3
		} else if body[1] == 255 {
			off = 6
		}
		h.Write(body[off:])
		check(sig.Sign(h, e.PrivateKey, cfg))
		check(sig.Serialize(&b))
	}
	var names []string
	for n := range e.Identities {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		id := e.Identities[n]
		check(id.UserId.Serialize(&b))
		check(id.SelfSignature.Serialize(&b))
		for _, s := range id.Signatures {
			check(s.Serialize(&b))
		}
	}
	for _, s := range e.Subkeys {
		check(s.PublicKey.Serialize(&b))
		check(s.Sig.Serialize(&b))
	}
	return b.Bytes()
}

func main() {
	check(dsa.GenerateParameters(&dsaParams, rand.Reader, dsa.L1024N160))
	var fx []Fixture
	add := func(kind string, algo string, bits int, created time.Time, email string, uids []uidSpec, sub, revoke bool) {
		e := entity(algo, bits, created, uids, sub)
		raw := serialize(e, revoke)
		el, err := openpgp.ReadKeyRing(bytes.NewReader(raw))
		check(err)
		if len(el) != 1 || (len(el[0].Revocations) > 0) != revoke || len(el[0].Identities) != len(uids) {
			panic(fmt.Sprint("bad fixture ", kind, len(el), el[0].Revocations, len(el[0].Identities)))
		}
		f := Fixture{Raw: raw, Email: email, Created: created.Unix(), Revoked: revoke, Kind: kind, Algo: algo, Bits: bits}
		for n := range e.Identities {
			f.IDs = append(f.IDs, n)
		}
		sort.Strings(f.IDs)
		fx = append(fx, f)
	}
	if len(os.Args) > 2 {
		f, err := os.Open(os.Args[2])
		check(err)
		z, err := gzip.NewReader(f)
		check(err)
		check(gob.NewDecoder(z).Decode(&fx))
		n := len(fx)
		more(add, &fx)
		fmt.Println(len(fx)-n, "added")
		write(fx)
		return
	}
	algos := []struct {
		a string
		b int
	}{{"ecdsa", 256}, {"rsa", 1024}, {"dsa", 1024}, {"ecdsa", 384}, {"rsa", 1536}, {"ecdsa", 256}, {"rsa", 2048}, {"dsa", 1024}, {"ecdsa", 521}, {"ecdsa", 256}}
	doms := []string{"epfl.ch", "gmail.com", "example.org", "mit.edu", "x.io", "student.epfl.ch", "co.uk", "epfl.com"}
	names := []string{"alice", "bob", "carol", "dave", "eve", "frank", "grace", "heidi", "ivan", "judy", "mallory", "niaj", "olivia", "peggy", "rupert", "sybil", "trent", "victor", "walter", "al", "a"}
	year := func(i int) time.Time {
		y := 1999 + i%25
		switch i % 5 {
		case 0:
			return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
		case 1:
			return time.Date(y, 12, 31, 23, 30, 0, 0, time.UTC)
		case 2:
			return time.Date(y, 1, 1, 0, 30, 0, 0, time.UTC)
		}
		return time.Date(y, time.Month(1+i%12), 1+i%28, i%24, i%60, 7, 0, time.UTC)
	}
	// single identities
	for i := 0; i < 150; i++ {
		n, d := names[i%len(names)], doms[(i/len(names))%len(doms)]
		if i >= len(names)*len(doms) {
			n = fmt.Sprintf("%s%d", n, i)
		}
		al := algos[i%len(algos)]
		em := n + "@" + d
		shown := em
		if i%4 == 1 {
			shown = fmt.Sprintf("%c%s@%s", n[0]-32, n[1:], d)
		}
		add("single", al.a, al.b, year(i), em, []uidSpec{{name: "User " + n, email: shown}}, i%3 == 0, false)
	}
	// several keys for one address
	for i := 0; i < 12; i++ {
		em := fmt.Sprintf("multi%d@example.org", i)
		for j := 0; j < 3; j++ {
			al := algos[(i+j)%len(algos)]
			t := time.Date(2005+(i*3+j*(i%4-1)+20)%15, 5, 1+j, 12, 0, 0, 0, time.UTC)
			if i%6 == 5 {
				t = time.Date(2010, 5, 1, 12, 0, 0, 0, time.UTC) // ties
			}
			shown := em
			if j == 1 {
				shown = fmt.Sprintf("MULTI%d@Example.org", i)
			}
			add("multi", al.a, al.b, t, em, []uidSpec{{name: fmt.Sprintf("M %d %d", i, j), email: shown}}, j == 0, false)
		}
	}
	// revoked: sometimes the newest of its address, sometimes alone
	for i := 0; i < 12; i++ {
		em := fmt.Sprintf("rev%d@mit.edu", i)
		al := algos[i%3]
		add("revoked", al.a, al.b, time.Date(2015, 3, 1, 0, 0, i, 0, time.UTC), em, []uidSpec{{name: "R", email: em}}, false, true)
		if i%3 != 0 {
			add("rev-live", al.a, al.b, time.Date(2010+i, 3, 1, 0, 0, i, 0, time.UTC), em, []uidSpec{{name: "R", email: em}}, false, false)
		}
	}
	// several identities
	for i := 0; i < 24; i++ {
		own := fmt.Sprintf("many%d@epfl.ch", i)
		other := fmt.Sprintf("%s@%s", names[i%len(names)], doms[0])
		t := time.Date(2001+i, 7, 9, 1, 2, 3, 0, time.UTC)
		al := algos[i%4]
		var u []uidSpec
		switch i % 4 {
		case 0: // flagged primary, others are other people's addresses and newer
			u = []uidSpec{{"Many", own, true, t}, {"Other", other, false, t.Add(time.Hour)}}
		case 1: // none flagged: the newest
			u = []uidSpec{{"Many", other, false, t}, {"Many", own, false, t.Add(48 * time.Hour)}}
		case 2: // primary has no address: the alphabetically first of the others
			u = []uidSpec{{"Nobody", "", true, t}, {"Zed", "zzz-" + own, false, t.Add(time.Hour)}, {"Many", own, false, t}}
		case 3: // two flagged: newest flagged
			u = []uidSpec{{"Many", "old-" + own, true, t}, {"Many", own, true, t.Add(time.Hour)}, {"X", "x-" + own, false, t.Add(9 * time.Hour)}}
		}
		add("identities", al.a, al.b, t, own, u, i%2 == 0, false)
	}
	// no address at all
	for i := 0; i < 4; i++ {
		add("noemail", "ecdsa", 256, time.Date(2012, 1, 1, 0, 0, i, 0, time.UTC), "", []uidSpec{{name: fmt.Sprintf("Nameless %d", i)}}, false, false)
	}
	// larger than the store's record limit, and just below it
	for i := 0; i < 4; i++ {
		em := fmt.Sprintf("large%d@co.uk", i)
		t := time.Date(2018, 1, 1, 0, 0, i, 0, time.UTC)
		u := []uidSpec{{"Large", em, true, t}}
		n := 40
		if i >= 2 {
			n = 35
		}
		for j := 0; j < n; j++ {
			u = append(u, uidSpec{fmt.Sprintf("Large alias number %d of key %d", j, i), fmt.Sprintf("alias%d-%d@elsewhere.net", i, j), false, t})
		}
		add("large", "rsa", 1024, t, em, u, false, false)
		fmt.Println("large", len(fx[len(fx)-1].Raw))
	}
	write(fx)
}

func write(fx []Fixture) {
	f, err := os.Create(os.Args[1])
	check(err)
	z := gzip.NewWriter(f)
	check(gob.NewEncoder(z).Encode(fx))
	check(z.Close())
	check(f.Close())
	fmt.Println(len(fx), "fixtures")
}

// more adds what later checks needed to a file made before.
func more(add func(kind string, algo string, bits int, created time.Time, email string, uids []uidSpec, sub, revoke bool), fx *[]Fixture) {
	// several keys for one address, made shortly after one another
	gaps := []time.Duration{time.Second, time.Minute, time.Hour, 5 * time.Hour, 23 * time.Hour, 2 * time.Second}
	for i, g := range gaps {
		em := fmt.Sprintf("again%d@mit.edu", i)
		t := time.Date(2014+i, 6, 15, 0, 10, 0, 0, time.UTC)
		if i == 5 {
			t = time.Date(2018, 12, 31, 23, 59, 59, 0, time.UTC)
		}
		for j := 0; j < 2; j++ {
			add("again", "ecdsa", 256, t.Add(time.Duration(j)*g), em, []uidSpec{{name: fmt.Sprintf("Again %d", j), email: em}}, false, false)
		}
	}
	// addresses beyond ASCII, with comments, very long
	for i, em := range []string{"anna@z\u00fcri.ch", "ben@b\u00fcri.ch", "m\u00fcller@epfl.ch", "\u00e9va@x.io", "eva@x.io", "\u65e5\u672c@example.org", "a+b.c_d-e@x.io",
		"averylongaddresswithmanymanycharactersinit.andstillmore.andmore@student.epfl.ch",
		"averylongaddresswithmanymanycharactersinit.andstillmore.andmore@students.example.subdomain.of.a.rather.long.organisation.name.with.many.parts.epfl.ch"} {
		shown := em
		if i == 2 {
			shown = "M\u00dcller@EPFL.ch"
		}
		add("odd-address", "ecdsa", 256, time.Date([]int{2018, 2018, 2018, 2007, 2008, 2009}[i%6], 2, 28, 23, 0, i, 0, time.UTC), em, []uidSpec{{name: "Odd", email: shown}}, i%2 == 0, false)
	}
	// packets that end like the padding of a block
	for i, tail := range [][]byte{{0x80}, {0x80}, {0}, {0x80, 0}, {0x80, 0x80}} {
		for {
			em := fmt.Sprintf("tail%d@epfl.com", i)
			add("tail", "dsa", 1024, time.Date(2004+i, 4, 4, 4, 4, 4, 0, time.UTC), em, []uidSpec{{name: "Tail", email: em}}, false, false)
			if bytes.HasSuffix((*fx)[len(*fx)-1].Raw, tail) {
				break
			}
			*fx = (*fx)[:len(*fx)-1]
		}
	}
}
