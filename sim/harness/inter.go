package main

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/si-co/vpir-code/zzsim/rt"
)

// session is one run of the interactive client and the person at the keyboard.
type session struct {
	w     *webWorld
	n     *rt.Node
	keys  []ans
	jobs  []*job
	shown []string // what the result prompts say
	asked int
}

// ans is one answer: the label of the option, or its number if it is gone.
type ans struct {
	text string
	idx  int
	job  int
}

func (w *webWorld) session(name string) *session {
	s := &session{w: w}
	n := w.x.NewNode(name)
	n.Host = "10.0.4.1"
	n.Loc = w.x.zone("izone")
	n.Args = []string{"interactive"}
	n.Survey = s.survey
	s.n = n
	return s
}

func (s *session) say(l ...ans) { s.keys = append(s.keys, l...) }

// lookup asks for a key.
func (s *session) lookup(j *job) {
	k := len(s.jobs)
	s.jobs = append(s.jobs, j)
	s.say(ans{"📦 Download a key", 0, k}, ans{j.mail, 0, k})
}

// count asks for a statistic.
func (s *session) count(x *Ctx) {
	d := s.w.cx
	k := len(s.jobs)
	j := &job{d: d}
	be := func(kind int) ans {
		j.p = x.somePred(d.attrs, kind)
		j.p.kind = kind
		if j.p.text == "" {
			j.p.text = "u"
		}
		if x.Choice("begend", 2) == 0 {
			j.p.info.FromStart, j.p.info.FromEnd = len(j.p.text), 0
			if kind == pSuffix {
				j.p.kind = pPrefix
			}
			return ans{"begin with", 0, k}
		}
		j.p.info.FromStart, j.p.info.FromEnd = 0, len(j.p.text)
		return ans{"end with", 1, k}
	}
	s.say(ans{"🔎 Get stats", 1, k})
	switch x.Choice("istat", 4) {
	case 0:
		b := be(pSuffix)
		s.say(ans{"✌️ Count emails", 0, k}, ans{"email", 0, k}, b, ans{j.p.text, 0, k}, ans{"", 0, k})
		j.what = fmt.Sprintf("interactive count %s %q", b.text, j.p.text)
	case 1:
		j.p = x.somePred(d.attrs, pAlgo)
		i := 0
		for a, n := range algoNames {
			if n == j.p.text {
				i = a
			}
		}
		s.say(ans{"✌️ Count emails", 0, k}, ans{"algo", 1, k}, ans{j.p.text, i, k}, ans{"", 0, k})
		j.what = "interactive " + j.p.what
	case 2:
		j.p = x.somePred(d.attrs, pTime)
		s.say(ans{"✌️ Count emails", 0, k}, ans{"creation", 2, k}, ans{j.p.text, 0, k}, ans{"", 0, k})
		j.what = "interactive " + j.p.what
	case 3:
		b := be(pAvg)
		s.say(ans{"📆 Get average lifetime based on email", 1, k}, b, ans{j.p.text, 0, k}, ans{"", 0, k})
		j.what = fmt.Sprintf("interactive average %s %q", b.text, j.p.text)
	}
	s.jobs = append(s.jobs, j)
}

func (s *session) survey(p interface{}, resp interface{}) error {
	if s.asked >= len(s.keys) {
		return errors.New("EOF")
	}
	a := s.keys[s.asked]
	s.asked++
	v := reflect.Indirect(reflect.ValueOf(p))
	msg := v.FieldByName("Message").String()
	s.shown = append(s.shown, msg)
	s.w.x.Tracef("prompt %q: %q", msg, a.text)
	s.w.x.Sleep(time.Second)
	text := a.text
	if o := v.FieldByName("Options"); o.IsValid() {
		found := false
		for i := 0; i < o.Len(); i++ {
			if o.Index(i).String() == text {
				found = true
			}
		}
		if !found {
			if a.idx >= o.Len() {
				return errors.New("no such option")
			}
			text = o.Index(a.idx).String()
		}
	}
	r := reflect.ValueOf(resp).Elem()
	switch r.Kind() {
	case reflect.String:
		r.SetString(text)
	case reflect.Int:
		r.SetInt(int64(a.idx))
	}
	return nil
}

func (s *session) start() {
	s.say(ans{"👉 exit", 2, -1})
	s.n.Start(mainInter)
}

var resultRe = regexp.MustCompile(`Result of (?s:.*): (\d+)\.\n`)

// judge checks what the person saw.
func (s *session) judge(mustWork bool) {
	x := s.w.x
	n := s.n
	x.Check(n.WaitExit(24*time.Hour), "client-hangs", "the interactive client has not ended after a day")
	x.Check(!n.Crashed, "client-crash", "the interactive client crashed: %s\n%s", n.CrashMsg, n.CrashStack)
	out := n.Out.String()
	// statistics, in order
	var stats []uint64
	for _, m := range s.shown {
		if r := resultRe.FindStringSubmatch(m); r != nil {
			v, _ := strconv.ParseUint(r[1], 10, 64)
			stats = append(stats, v)
		}
	}
	// key lookups, in order
	parts := strings.Split(out, "email is ")
	if len(parts) > 0 {
		parts = parts[1:]
	}
	ok := 0
	for _, j := range s.jobs {
		if j.p != nil {
			if len(stats) == 0 {
				break
			}
			j.checkCount(stats[0])
			stats = stats[1:]
			ok++
			continue
		}
		if len(parts) == 0 {
			break
		}
		p := parts[0]
		parts = parts[1:]
		if strings.Contains(p, "BEGIN PGP") {
			keys, err := armored(p)
			j.checkKey(keys, err, p)
			ok++
		} else if strings.Contains(p, "No key is found") {
			x.Check(!j.defined(), "not-found", "%s: reported as not found", j.what)
			ok++
		} else {
			break
		}
	}
	if n.ExitCode == 0 {
		x.Check(ok == len(s.jobs), "silent-success", "the interactive client ends with 0 after %d of %d results: %s", ok, len(s.jobs), lastPart(out))
	} else if mustWork && !x.stalled() {
		defined := ok < len(s.jobs) && s.jobs[ok].defined()
		if ok < len(s.jobs) && s.jobs[ok].p == nil {
			defined = true // absence is reported, not failed
		}
		x.Check(!defined, "fails", "the interactive client fails (%d %s) though nothing went wrong", n.ExitCode, n.FatalMsg)
	}
}

// c12inter runs the interactive client.
func c12inter(x *Ctx) {
	w := x.webServers()
	trouble := x.drawNet()
	if x.Choice("lying", 3) == 2 {
		trouble = true
		if w.pt.auth() && x.Choice("which", 3) != 2 {
			w.pt.lie(x.Choice("liar", 2))
		} else {
			w.cx.lie(x.Choice("liar", 2))
		}
	}
	var ss []*session
	for c := 0; c < x.Pick("sessions", 1, 2, 3); c++ {
		s := w.session(fmt.Sprintf("inter%d", c))
		for i := 0; i <= x.Choice("jobs", 4); i++ {
			if x.Choice("ijob", 2) == 0 {
				s.lookup(w.pt.someJob())
			} else {
				s.count(x)
			}
		}
		s.start()
		ss = append(ss, s)
	}
	for _, s := range ss {
		s.judge(!trouble)
	}
	w.pt.checkServers()
	w.cx.checkServers()
	x.Nontrivial()
	x.Cover("interactive sessions=%d trouble=%v", len(ss), trouble)
}
