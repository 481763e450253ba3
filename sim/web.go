package main

// csweb: requests, their scheduling, and the checks on its pages. Every
// request is served by its own goroutine of one real csweb process; the guest
// asks at every system call, every write to a client and after a planned
// number of statements which request continues.

import (
	"bytes"
	"fmt"
	"html"
	"net/url"
	"path"
	"regexp"
	"strconv"
	"strings"
	"syscall"
)

const (
	trapSched = 9001
	trapReply = 9002
	trapAbort = 9003
)

type WebReq struct {
	Target string `json:"target"`           // of the request line, escaped
	Form   string `json:"form,omitempty"`   // body of a POST
	Raw    string `json:"raw,omitempty"`    // the whole request, instead
	Hangup int    `json:"hangup,omitempty"` // the client goes away after this many bytes -1
	Alone  bool   `json:"alone,omitempty"`  // starts after all earlier ones, ends before all later ones
	Final  bool   `json:"final,omitempty"`  // like Alone, and after all other processes
}

type WebSpec struct {
	Reqs      []WebReq `json:"reqs"`
	Yield     int      `json:"yield,omitempty"` // average number of statements between questions; 0: only at system calls
	YieldSeed uint64   `json:"yield_seed,omitempty"`
	Block     int      `json:"block,omitempty"` // the requests are the same ones again and again, this many in a round, one at a time
	Turns     int      `json:"turns,omitempty"` // the requests take turns, this many questions each
	Sched     []Switch `json:"sched,omitempty"` // at the n-th question continue with this request
}

func (s *WebSpec) clone() *WebSpec {
	c := *s
	c.Reqs = append([]WebReq(nil), s.Reqs...)
	c.Sched = append([]Switch(nil), s.Sched...)
	return &c
}

// drop removes request n.
func (s *WebSpec) drop(n int) {
	s.Block = 0
	s.Reqs = append(s.Reqs[:n], s.Reqs[n+1:]...)
	var sw []Switch
	for _, x := range s.Sched {
		switch {
		case x.To > n:
			x.To--
			fallthrough
		case x.To < n:
			sw = append(sw, x)
		}
	}
	s.Sched = sw
}

func (r *WebReq) bytes() []byte {
	if r.Raw != "" {
		return []byte(r.Raw)
	}
	if r.Form != "" {
		return []byte(fmt.Sprintf("POST %s HTTP/1.1\r\nHost: localhost:2473\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s", r.Target, len(r.Form), r.Form))
	}
	return []byte("GET " + r.Target + " HTTP/1.1\r\nHost: localhost:2473\r\n\r\n")
}

type webState struct {
	spec      *WebSpec
	cur       int
	ord, si   int
	asked     int
	turn      int // the question at which the last turn began
	started   []bool
	finished  []bool
	blocked   []bool
	resp      [][]byte
	hung      []bool // the client went away
	abort     []string
	order     []int // (question, request) at every change
	idleFds   []int // open descriptors whenever no request was in progress
	idleMaps  []int
	switches  int
	overlap   int // most requests in progress at once
	deadlocks int
	ixStart   []*Inode // the index when the request started
	ixEnd     []*Inode // and when its handler was done
}

func newWebState(s *WebSpec) *webState {
	n := len(s.Reqs)
	return &webState{spec: s, cur: -1, started: make([]bool, n), finished: make([]bool, n), blocked: make([]bool, n), resp: make([][]byte, n), hung: make([]bool, n), abort: make([]string, n), ixStart: make([]*Inode, n), ixEnd: make([]*Inode, n)}
}

// may reports whether request i could start now.
func (s *webState) may(i int) bool {
	if s.started[i] {
		return false
	}
	for k := range s.spec.Reqs {
		alone := s.spec.Reqs[k].Alone || s.spec.Reqs[k].Final
		if k < i && !s.finished[k] && (alone || s.spec.Reqs[i].Alone || s.spec.Reqs[i].Final) {
			return false
		}
	}
	return true
}

// finalNext reports whether all that is left is to be done after all other
// processes.
func (s *webState) finalNext() bool {
	any := false
	for i := range s.spec.Reqs {
		if s.started[i] && !s.finished[i] {
			return false
		}
		if !s.started[i] {
			if !any && !s.spec.Reqs[i].Final {
				return false
			}
			any = true
		}
	}
	return any
}

// mustWait: the question cannot be answered before the other processes are
// done, or must be answered in step with them.
func (p *Proc) mustWait(c *Call) bool {
	if p.web == nil {
		return false
	}
	if c.a[1] == 1 || p.web.cur < 0 {
		for _, q := range p.m.procs {
			if q != p && !q.done {
				return true
			}
		}
	}
	return false
}

func (m *Machine) webSched(p *Proc, c *Call) *Reply {
	s := p.web
	id, reason := int(int32(c.a[0])), c.a[1]
	if id >= len(s.started) {
		return errRep(syscall.EINVAL)
	}
	if id >= 0 && reason == 1 && !s.finished[id] {
		s.finished[id] = true
		s.ixEnd[id] = m.fs.lookup(m.index, true)
		busy := 0
		for i := range s.started {
			if s.started[i] && !s.finished[i] {
				busy++
			}
		}
		if busy == 0 {
			n := 0
			for _, f := range p.fds {
				if f.std == 0 {
					n++
				}
			}
			s.idleFds = append(s.idleFds, n)
			s.idleMaps = append(s.idleMaps, len(p.maps))
		}
	}
	if s.finalNext() {
		for _, q := range m.procs {
			if q != p && !q.done {
				p.blocked = true
				return nil
			}
		}
	}
	if reason == 2 && id >= 0 {
		s.blocked[id] = true
	} else {
		for i := range s.blocked {
			s.blocked[i] = false
		}
	}
	s.ord += int(int32(c.a[4]))
	ord := s.ord
	want := -1
	for s.si < len(s.spec.Sched) && s.spec.Sched[s.si].Step <= ord {
		if s.spec.Sched[s.si].Step == ord {
			want = s.spec.Sched[s.si].To
		}
		s.si++
	}
	can := func(i int) bool {
		return i >= 0 && i < len(s.started) && !s.finished[i] && !s.blocked[i] && (s.started[i] || s.may(i))
	}
	s.asked++
	turns := s.spec.Turns << min(s.asked/20_000, 20) // a long run must not become an endless one
	if turns > 0 && ord-s.turn >= turns {
		s.turn = ord
		for i := 1; i <= len(s.started) && !can(want); i++ {
			want = (s.cur + i + len(s.started)) % len(s.started)
		}
	}
	if !can(want) {
		want = id
	}
	if !can(want) {
		want = -1
		for i := range s.started {
			if can(i) {
				want = i
				break
			}
		}
	}
	if want < 0 {
		for i := range s.finished {
			if !s.finished[i] {
				s.deadlocks++
				return &Reply{r1: -2}
			}
		}
		m.event(Event{Proc: p.id, Class: "shutdown", Ord: -1})
		return &Reply{r1: -1}
	}
	if want != s.cur {
		s.order = append(s.order, ord, want)
		if s.cur >= 0 && !s.finished[s.cur] {
			s.switches++
		}
	}
	s.cur = want
	rep := &Reply{r1: int64(want)}
	skip := 1 << 24
	if s.si < len(s.spec.Sched) {
		skip = max(0, s.spec.Sched[s.si].Step-ord-1)
	}
	if turns > 0 {
		skip = min(skip, max(0, s.turn+turns-ord-1))
	}
	rep.r1 |= int64(skip) << 36
	if !s.started[want] {
		s.started[want] = true
		s.ixStart[want] = m.fs.lookup(m.index, true)
		b := s.spec.Reqs[want].bytes()
		rep.r1 |= int64(len(b)) << 16
		rep.outs[2] = b
		busy := 0
		for i := range s.started {
			if s.started[i] && !s.finished[i] {
				busy++
			}
		}
		s.overlap = max(s.overlap, busy)
		m.event(Event{Proc: p.id, Class: "request", Path: s.spec.Reqs[want].Target, Ret: int64(want), Ord: -1})
	}
	m.hash = mix64(m.hash, uint64(want)+uint64(ord)<<16)
	return rep
}

func (m *Machine) webReply(p *Proc, c *Call) *Reply {
	s := p.web
	id := int(int32(c.a[0]))
	if id < 0 || id >= len(s.resp) {
		return errRep(syscall.EINVAL)
	}
	b := c.in[1]
	if h := s.spec.Reqs[id].Hangup; h > 0 {
		room := h - 1 - len(s.resp[id])
		if len(b) > room {
			if room <= 0 {
				if !s.hung[id] {
					m.fired["client hang-up"]++
				}
				s.hung[id] = true
				return errRep(syscall.EPIPE)
			}
			b = b[:room]
		}
	}
	s.resp[id] = append(s.resp[id], b...)
	m.hash = mix64(m.hash, hashBytes(b)+uint64(id))
	return &Reply{r1: int64(len(b))}
}

func (m *Machine) webAbort(p *Proc, c *Call) *Reply {
	id := int(int32(c.a[0]))
	if id < 0 || id >= len(p.web.abort) {
		return errRep(syscall.EINVAL)
	}
	p.web.abort[id] = string(c.in[1])
	m.event(Event{Proc: p.id, Class: "abort", Path: string(c.in[1]), Ret: int64(id), Ord: -1})
	return &Reply{}
}

// ---- responses ----

type webResp struct {
	status int
	header string
	body   []byte
	ok     bool
}

func parseResp(b []byte) (r webResp) {
	h, body, ok := bytes.Cut(b, []byte("\r\n\r\n"))
	if !ok || !bytes.HasPrefix(h, []byte("HTTP/1.1 ")) || len(h) < 12 {
		return
	}
	r.status, _ = strconv.Atoi(string(h[9:12]))
	r.header = string(h)
	r.body = body
	r.ok = true
	return
}

func (r *webResp) ctype() string {
	for _, l := range strings.Split(r.header, "\r\n") {
		if v, ok := strings.CutPrefix(strings.ToLower(l), "content-type:"); ok {
			return strings.TrimSpace(v)
		}
	}
	return ""
}

var tookRE = regexp.MustCompile(`\n(\d+ matches in )\d+\.\d\d\ds\n`)

// noTime masks the time a search took.
func noTime(b []byte) []byte {
	i := bytes.LastIndex(b, []byte(" matches in "))
	if i < 0 {
		return b
	}
	j := bytes.LastIndexByte(b[:i], '\n')
	if j < 0 {
		return b
	}
	return append(append([]byte(nil), b[:j]...), tookRE.ReplaceAll(b[j:], []byte("\n${1}T\n"))...)
}

// stableLen is the length of the part of a response that precedes the time.
func stableLen(b []byte) int {
	if i := bytes.LastIndex(b, []byte(" matches in ")); i >= 0 {
		return i
	}
	return len(b)
}

// solo runs one request on a csweb of its own.
func (w *World) solo(fs *FS, r WebReq) ([]byte, *Violation) {
	r.Hangup, r.Alone, r.Final = 0, false, false
	ps, _ := w.run(fs.Clone(), []*ProcSpec{{Bin: "csweb", Web: &WebSpec{Reqs: []WebReq{r}}}}, nil)
	p := ps[0]
	if p.hung() {
		return nil, w.viol("hang", "one request alone (%s): %s", r.Target, p.describe())
	}
	if p.Exit != 0 {
		return nil, w.viol("server-died", "one request alone (%s): %s", r.Target, p.describe())
	}
	if p.web.abort[0] != "" {
		return nil, nil
	}
	return p.web.resp[0], nil
}

// doWeb serves a number of requests from one csweb, perhaps while other
// processes run, and judges every response.
func (w *World) doWeb(s *Step) *Violation {
	before := w.fs.Clone()
	olds := w.models
	first := w.fs.lookup(w.plan.Index, true)
	ps, m := w.run(w.fs, s.Procs, s.Sched)
	w.last = ps
	w.fs.free = -1
	p := ps[0]
	st := p.web
	last := w.fs.lookup(w.plan.Index, true)
	w.tot.Checks["csweb runs"]++
	if m.dead {
		return w.viol("deadlock", "the processes block each other forever")
	}
	if p.hung() {
		return w.viol("hang", "%s", p.describe())
	}
	if p.Exit == 96 {
		return w.viol("deadlock", "requests wait for each other forever: %s", p.describe())
	}
	if p.Exit != 0 {
		return w.viol("server-died", "%s", p.describe())
	}
	w.maxSwitch = max(w.maxSwitch, st.switches)
	w.tot.Switches += st.switches
	w.tot.Checks["requests served"] += len(st.resp)
	w.tot.Checks["questions which request continues"] += st.ord
	w.order = append(w.order, st.order...)
	disks := []*FS{before}
	changed := false
	damaged := false
	for _, q := range ps[1:] {
		if q.spec.Bin == "cindex" {
			ms, v := w.indexOutcome(q, m, w.models, before)
			if v != nil {
				return v
			}
			if q.Exit != 0 || q.Crashed {
				ms = append(append([]*Model(nil), olds...), ms...)
			}
			w.models = ms
			changed = true
		} else {
			damaged = true
		}
	}
	if changed || damaged {
		disks = append(disks, w.fs)
	}
	hit := map[int]bool{}
	for _, e := range m.trace {
		if e.Proc == 0 && e.Req > 0 && strings.HasPrefix(e.Fault, "err") {
			hit[e.Req-1] = true
		}
	}
	cache := map[string][]byte{}
	alone := func(k int, r WebReq) ([]byte, *Violation) {
		key := fmt.Sprint(k) + string(r.bytes())
		if b, ok := cache[key]; ok {
			return b, nil
		}
		b, v := w.solo(disks[k], r)
		cache[key] = b
		return b, v
	}
	for i, r := range st.spec.Reqs {
		got := st.resp[i]
		if !st.finished[i] {
			return w.viol("lost-request", "request %d (%s) was never finished", i, r.Target)
		}
		if hit[i] && !damaged && st.abort[i] != "" && w.plan.Property == "C13" {
			return w.viol("request-aborted", "request %d (%s) met a failing system call: the handler panicked: %s", i, r.Target, st.abort[i])
		}
		if hit[i] {
			w.tot.Checks["requests hit by a fault"]++
			continue
		}
		ks := make([]int, len(disks))
		for k := range ks {
			ks[k] = k
		}
		if r.Final {
			ks = ks[len(ks)-1:]
		} else if damaged {
			continue
		} else if changed && first != last && st.ixStart[i] == last {
			ks = ks[len(ks)-1:] // all of it happened after the replacement
			w.tot.Checks["requests after the index was replaced"]++
		} else if changed && first != last && st.ixEnd[i] == first {
			ks = ks[:1]
			w.tot.Checks["requests before the index was replaced"]++
		}
		var want []byte
		ok := false
		for _, k := range ks {
			b, v := alone(k, r)
			if v != nil {
				return v
			}
			want = b
			if st.abort[i] != "" {
				ok = b == nil
			} else if b == nil {
				continue
			} else if st.hung[i] {
				n := min(len(got), stableLen(b))
				ok = n <= len(b) && bytes.Equal(got[:n], b[:n])
				if h := r.Hangup - 1; !ok || len(got) != h {
					ok = false
				}
			} else {
				ok = bytes.Equal(noTime(got), noTime(b))
			}
			if ok {
				break
			}
		}
		if st.abort[i] != "" && !ok {
			return w.viol("request-aborted", "request %d (%s): the handler panicked: %s", i, r.Target, st.abort[i])
		}
		if !ok {
			a, b := noTime(got), noTime(want)
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			return w.viol("response", "request %d (%s) among others got %d bytes, alone %d; at byte %d %q instead of %q", i, r.Target, len(a), len(b), k, clip(a[k:]), clip(b[k:]))
		}
		w.tot.Checks["responses compared with the same request alone"]++
	}
	if b := st.spec.Block; b > 0 && len(st.idleFds) == len(st.spec.Reqs) && len(st.idleFds) >= 8*b {
		for _, c := range [][]int{st.idleFds, st.idleMaps} {
			// rounds 4 and 8
			if x, y := c[4*b-1], c[8*b-1]; y-x >= 3 {
				return w.viol("leak", "the same %d requests again and again: idle csweb holds %d files and maps after 4 rounds, %d after 8", b, x, y)
			}
		}
		w.tot.Checks["long repetitions of the same requests"]++
	} else if w.plan.Property == "C13" && len(st.spec.Reqs) >= 8 {
		for k, c := range st.idleFds {
			if k >= 4 && (c > 3 || st.idleMaps[k] > 3) {
				return w.viol("leak", "after a few requests csweb, idle, holds %d open files and %d maps", c, st.idleMaps[k])
			}
		}
		w.tot.Checks["descriptor counts of an idle csweb"] += len(st.idleFds)
	}
	if s.N > 0 { // against the model
		n := 0
		if damaged {
			return nil
		}
		for i, r := range st.spec.Reqs {
			if n >= s.N || r.Raw != "" {
				continue
			}
			b, v := alone(len(disks)-1, r)
			if v != nil {
				return v
			}
			if b == nil {
				return w.viol("request-aborted", "request %d (%s) alone: the handler panicked", i, r.Target)
			}
			n++
			msg := ""
			for _, md := range w.models {
				if msg = w.judgePage(md, w.fs, r, b); msg == "" {
					break
				}
			}
			if msg != "" {
				return w.viol("page", "%s: %s", r.Target+" "+r.Form, msg)
			}
			w.tot.Checks["pages compared with the model"]++
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// ---- pages against the model ----

var pageTags = map[string]bool{"html": true, "head": true, "link": true, "body": true, "p": true, "form": true, "input": true, "hr": true, "pre": true, "title": true, "script": true, "span": true, "a": true, "b": true, "small": true, "br": true, "div": true, "meta": true, "ol": true, "li": true, "ul": true, "h1": true, "h2": true, "style": true, "table": true, "tr": true, "td": true, "th": true, "code": true, "em": true, "i": true, "strong": true}

var attrRE = regexp.MustCompile(`^\s*([a-zA-Z-]+)(?:\s*=\s*"([^"]*)")?`)
var entRE = regexp.MustCompile(`^&(amp|lt|gt|quot|nbsp|#[0-9]+|#[xX][0-9a-fA-F]+);`)

type pageBit struct {
	tag  string // name, with "/" in front if closing; "" for text
	attr map[string]string
	text string // unescaped
}

// scanPage splits a page into tags and text. It rejects everything that the
// server does not have to emit itself: unknown tags or attributes, unescaped
// ampersands, inline scripts.
func scanPage(b []byte) ([]pageBit, string) {
	var out []pageBit
	s := string(b)
	at := 0
	for at < len(s) {
		i := strings.IndexByte(s[at:], '<')
		if i < 0 {
			i = len(s) - at
		}
		if i > 0 {
			t := s[at : at+i]
			for k := 0; k < len(t); k++ {
				if t[k] == '&' && !entRE.MatchString(t[k:]) {
					return out, fmt.Sprintf("unescaped & in %q", clip([]byte(t[max(0, k-10):])))
				}
			}
			out = append(out, pageBit{text: html.UnescapeString(t)})
			at += i
			continue
		}
		j := at + 1
		q := false
		for j < len(s) && (q || s[j] != '>') {
			if s[j] == '"' {
				q = !q
			}
			j++
		}
		if j >= len(s) {
			return out, fmt.Sprintf("unfinished tag %q", clip([]byte(s[at:])))
		}
		t := s[at+1 : j]
		bit := pageBit{attr: map[string]string{}}
		if strings.HasPrefix(t, "!") {
			if !strings.EqualFold(t, "!doctype html") {
				return out, fmt.Sprintf("unexpected markup <%s>", clip([]byte(t)))
			}
			at = j + 1
			continue
		}
		k := 0
		for k < len(t) && t[k] != ' ' && t[k] != '\n' && t[k] != '\t' && !(k > 0 && t[k] == '/') {
			k++
		}
		bit.tag = strings.ToLower(t[:k])
		if !pageTags[strings.TrimPrefix(bit.tag, "/")] {
			return out, fmt.Sprintf("unexpected markup <%s>", clip([]byte(t)))
		}
		rest := strings.TrimSuffix(strings.TrimSpace(t[k:]), "/")
		for strings.TrimSpace(rest) != "" {
			m := attrRE.FindStringSubmatch(rest)
			if m == nil {
				return out, fmt.Sprintf("bad attributes in <%s>", clip([]byte(t)))
			}
			name := strings.ToLower(m[1])
			if strings.HasPrefix(name, "on") && name != "onload" {
				return out, fmt.Sprintf("unexpected attribute in <%s>", clip([]byte(t)))
			}
			for k := 0; k < len(m[2]); k++ {
				if m[2][k] == '&' && !entRE.MatchString(m[2][k:]) {
					return out, fmt.Sprintf("unescaped & in <%s>", clip([]byte(t)))
				}
			}
			bit.attr[name] = html.UnescapeString(m[2])
			rest = rest[len(m[0]):]
		}
		out = append(out, bit)
		at = j + 1
	}
	return out, ""
}

// text joins the text of the bits.
func pageText(bits []pageBit) string {
	var sb strings.Builder
	for _, b := range bits {
		sb.WriteString(b.text)
	}
	return sb.String()
}

func linkPath(h string) (string, string, bool) {
	u, err := url.Parse(h)
	if err != nil {
		return "", "", false
	}
	return u.Path, u.Fragment, true
}

// judgePage checks one complete response.
func (w *World) judgePage(md *Model, fs *FS, r WebReq, resp []byte) string {
	x := parseResp(resp)
	if !x.ok {
		return fmt.Sprintf("not an HTTP response: %q", clip(resp))
	}
	u, err := url.Parse(r.Target)
	if err != nil {
		return ""
	}
	q := u.Query()
	if r.Form != "" {
		f, err := url.ParseQuery(r.Form)
		if err != nil {
			return ""
		}
		for k, v := range f {
			q[k] = append(v, q[k]...)
		}
	}
	switch {
	case strings.HasPrefix(u.Path, "/show/"):
		return judgeShow(fs, strings.TrimPrefix(u.Path, "/show"), x)
	case u.Path == "/_static/viewer.css" || u.Path == "/_static/viewer.js":
		// every page refers to these
		if x.status != 200 || len(x.body) == 0 || isPageType(x.ctype()) {
			return fmt.Sprintf("%s: status %d, type %q, %d bytes", u.Path, x.status, x.ctype(), len(x.body))
		}
	case u.Path == "/":
		return w.judgeHome(md, fs, q.Get("q"), q.Get("f"), x)
	}
	return ""
}

func isPageType(ct string) bool {
	return strings.HasPrefix(ct, "text/html")
}

// limitedPage checks a page that says it shows only the first matches.
func limitedPage(md *Model, fs *FS, o *GrepOpt, f, out string, n int) string {
	const limit = 100000
	if n != limit {
		return fmt.Sprintf("the page was cut at %d matches", n)
	}
	re, _ := o.compile()
	var fre *regexp.Regexp
	if f != "" {
		fre = regexp.MustCompile(f)
	}
	bs := searchBlocks(md, fs, o, re, fre, false)
	total := 0
	for _, b := range bs {
		total += len(b.lines)
		if !b.must {
			return "" // changed since: not attributable
		}
	}
	if total <= limit {
		return fmt.Sprintf("the page claims to be cut, but there are only %d matches", total)
	}
	ls := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for len(ls) > 0 {
		ok := false
		for i, b := range bs {
			k := min(len(ls), len(b.lines))
			if k > 0 && sameLines(ls[:k], b.lines[:k]) {
				ls, bs, ok = ls[k:], append(bs[:i:i], bs[i+1:]...), true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("the page shows %q, which is not a match or not in its place", clip([]byte(ls[0])))
		}
	}
	return ""
}

func (w *World) judgeHome(md *Model, fs *FS, q, f string, x webResp) string {
	if x.status != 200 || !isPageType(x.ctype()) {
		return fmt.Sprintf("status %d, type %q", x.status, x.ctype())
	}
	bits, msg := scanPage(x.body)
	if msg != "" {
		return msg
	}
	// the query is shown in the form
	ok := false
	rest := -1
	for i, b := range bits {
		if b.tag == "input" && b.attr["name"] == "q" && b.attr["value"] == q {
			ok = true
		}
		if b.tag == "pre" {
			rest = i + 1
			break
		}
	}
	if !ok || rest < 0 {
		return "the page does not show the query in its form"
	}
	text := strings.TrimPrefix(pageText(bits[rest:]), "\n")
	if q == "" {
		if strings.TrimSpace(text) != "" {
			return fmt.Sprintf("no query, yet the page says %q", clip([]byte(text)))
		}
		return ""
	}
	o := GrepOpt{N: true, Pat: q}
	if _, err := o.compile(); err != nil {
		if !strings.Contains(text, "Bad query") {
			return fmt.Sprintf("bad query, yet the page says %q", clip([]byte(text)))
		}
		return ""
	}
	if f != "" {
		fo := GrepOpt{Pat: f}
		if _, err := fo.compile(); err != nil {
			if !strings.Contains(text, "Bad -f") {
				return fmt.Sprintf("bad file pattern, yet the page says %q", clip([]byte(text)))
			}
			return ""
		}
	}
	if md.absent {
		if strings.Contains(text, " matches in ") {
			return "there is no index, yet the page reports a result"
		}
		return ""
	}
	// every link names its own line
	var lines []string
	for i := rest; i < len(bits); i++ {
		b := bits[i]
		if b.tag != "a" {
			continue
		}
		if i+1 >= len(bits) || bits[i+1].tag != "" {
			return "a link without text"
		}
		label := bits[i+1].text
		k := strings.LastIndexByte(label, ':')
		if k < 0 {
			return fmt.Sprintf("a link says %q", label)
		}
		p, frag, ok := linkPath(b.attr["href"])
		if want := "/show/" + label[:k]; !ok || p != want && p != strings.Replace(want, "//", "/", 1) || frag != "L"+label[k+1:] {
			return fmt.Sprintf("the link for %q leads to %q", label, b.attr["href"])
		}
		lines = append(lines, label)
	}
	text, limited := strings.CutSuffix(text, "more matches not shown due to match limit\n")
	j := strings.LastIndex(text, "\n")
	if j < 0 || !strings.HasSuffix(text, "\n") {
		return fmt.Sprintf("the page ends in %q", clip([]byte(text)))
	}
	j = strings.LastIndex(text[:j], "\n")
	if j < 0 {
		return fmt.Sprintf("the page ends in %q", clip([]byte(text)))
	}
	var n int
	var sec float64
	if k, _ := fmt.Sscanf(text[j+1:], "%d matches in %fs\n", &n, &sec); k != 2 {
		return fmt.Sprintf("the page ends in %q", clip([]byte(text[j:])))
	}
	out := text[:j]
	// messages about files that became directories
	var kept []string
	for _, l := range strings.SplitAfter(out, "\n") {
		if strings.HasSuffix(l, ": is a directory\n") && strings.Contains(l, ": read ") {
			continue
		}
		kept = append(kept, l)
	}
	out = strings.Join(kept, "")
	if c := strings.Count(out, "\n"); c != n || len(lines) != n {
		return fmt.Sprintf("the page counts %d matches and shows %d lines and %d links", n, c, len(lines))
	}
	if limited {
		w.tot.Checks["result pages cut at the limit"]++
		return limitedPage(md, fs, &o, f, out, n)
	}
	exit := 1
	if n > 0 {
		exit = 0
		w.nMatch++
		w.tot.Checks["result pages with matches"]++
	}
	return checkSearch(md, fs, &o, f, false, []byte(out), exit, nil)
}

func judgeShow(fs *FS, file string, x webResp) string {
	n := fs.lookup(file, true)
	switch {
	case n == nil || n.kind != KDir && n.kind != KReg || n.mode&0400 == 0:
		if x.status < 400 {
			return fmt.Sprintf("status %d for something that cannot be shown", x.status)
		}
		if isPageType(x.ctype()) {
			_, msg := scanPage(x.body)
			return msg
		}
		return ""
	case x.status != 200:
		return fmt.Sprintf("status %d: %q", x.status, clip(x.body))
	case n.kind == KDir:
		bits, msg := scanPage(x.body)
		if msg != "" {
			return msg
		}
		want := map[string]bool{}
		for _, k := range sortedKids(n) {
			want[strings.TrimSuffix(file, "/")+"/"+k] = true
		}
		text := pageText(bits)
		for i, b := range bits {
			if b.tag != "a" {
				continue
			}
			p, _, ok := linkPath(b.attr["href"])
			if !ok {
				return fmt.Sprintf("bad link %q", b.attr["href"])
			}
			p = strings.TrimPrefix(p, "/show")
			if want[p] && i+1 < len(bits) && bits[i+1].text == p[strings.LastIndexByte(p, '/')+1:] {
				delete(want, p)
				continue
			}
			// the way up
			if q := strings.TrimRight(p, "/"); q != "" && !under(path.Clean(file), path.Clean(q)) {
				return fmt.Sprintf("a link to %q, which is no entry", p)
			}
		}
		for k := range want {
			return fmt.Sprintf("no link to %q in the listing %q", k, clip([]byte(text)))
		}
		return ""
	}
	text, sure := webText(n.data)
	if !sure {
		return ""
	}
	if !text {
		if ct := x.ctype(); strings.Contains(ct, "html") || strings.Contains(ct, "xml") || strings.Contains(ct, "script") {
			return fmt.Sprintf("the content of a file is presented as a page of the server (%s)", ct)
		}
		if !bytes.Equal(x.body, n.data) {
			return "the content differs from the file"
		}
		return ""
	}
	if !isPageType(x.ctype()) && len(x.body) > 0 {
		return fmt.Sprintf("type %q", x.ctype())
	}
	bits, msg := scanPage(x.body)
	if msg != "" {
		return msg
	}
	// the numbered lines
	var lines []string
	for i := 0; i < len(bits); i++ {
		id := bits[i].attr["id"]
		if bits[i].tag != "span" || !strings.HasPrefix(id, "L") {
			continue
		}
		t := ""
		for i++; i < len(bits) && bits[i].tag != "/span"; i++ {
			t += bits[i].text
		}
		if id != "L"+strconv.Itoa(len(lines)+1) {
			return fmt.Sprintf("line %d has the anchor %q", len(lines)+1, id)
		}
		lines = append(lines, t)
	}
	want := strings.Split(strings.TrimSuffix(string(n.data), "\n"), "\n")
	if len(n.data) == 0 {
		want = nil
	}
	if len(lines) != len(want) {
		return fmt.Sprintf("%d lines shown, the file has %d", len(lines), len(want))
	}
	for i, l := range want {
		g := strings.TrimSuffix(lines[i], "\n")
		g = strings.TrimLeft(g, " ")
		g = strings.TrimPrefix(g, strconv.Itoa(i+1))
		g = strings.TrimPrefix(g, "  ")
		if g != l {
			return fmt.Sprintf("line %d is shown as %q, the file has %q", i+1, clip([]byte(g)), clip([]byte(l)))
		}
	}
	return ""
}

// webText: whether the file is text, and whether that is beyond doubt.
func webText(b []byte) (text, sure bool) {
	plain := true
	for _, c := range string(b) {
		plain = plain && c != 0xfffd && (c >= ' ' || c == '\n' || c == '\t' || c == '\f')
	}
	if plain { // wherever it is cut
		return true, true
	}
	if len(b) > 1024 {
		b = b[:1024]
	}
	for i, c := range string(b) {
		if c == 0xfffd || c < ' ' && c != '\n' && c != '\t' && c != '\f' {
			return false, i+4 <= len(b)
		}
	}
	return true, true
}

// htmlText returns what a reader of the output of csearch -html sees.
func htmlText(o *GrepOpt, out []byte) ([]byte, string) {
	bits, msg := scanPage(out)
	if msg != "" {
		return nil, msg
	}
	for i, b := range bits {
		if b.tag == "" || b.tag == "/a" {
			continue
		}
		if b.tag != "a" {
			return nil, fmt.Sprintf("unexpected markup <%s>", b.tag)
		}
		if i+1 >= len(bits) || bits[i+1].tag != "" {
			return nil, "a link without text"
		}
		name, frag := bits[i+1].text, ""
		if k := strings.LastIndexByte(name, ':'); k >= 0 && !o.L && !o.C {
			name, frag = name[:k], "L"+name[k+1:]
		}
		p, fr, ok := linkPath(b.attr["href"])
		if !ok || !strings.HasSuffix("/"+p, "/show/"+name) || fr != frag {
			return nil, fmt.Sprintf("the link for %q leads to %q", bits[i+1].text, b.attr["href"])
		}
	}
	return []byte(pageText(bits)), ""
}
