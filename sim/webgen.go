package main

import (
	"fmt"
	"net/url"
	"path"
	"sort"
	"strings"
	"syscall"
)

func init() {
	props = append(props,
		&PropDef{ID: "C12", Title: "concurrent web requests do not affect one another", Quick: 2500, Thorough: 60000, Level: "exploration",
			Rule: "one csweb process serves 2-9 requests whose handlers are interleaved at statements and system calls by a seeded schedule, sometimes while cindex replaces the index; non-trivial when two requests were in progress at once and the execution is distinct",
			Gen:  genC12},
		&PropDef{ID: "C13", Title: "the web server survives whatever a request meets", Quick: 2500, Thorough: 60000, Level: "fault_enumeration",
			Rule: "csweb serves up to 24 requests, some malformed or abandoned by their client, under system-call errors and a missing, cut-off or replaced index; non-trivial when a fault fired or a client went away and the execution is distinct",
			Gen:  genC13},
		&PropDef{ID: "C34", Title: "web pages show what the files hold and nothing else", Quick: 1800, Thorough: 60000, Level: "exploration",
			Rule: "csweb serves result pages, file pages and listings over trees full of markup, under fragmented and interrupted reads, and the links of its pages are followed; non-trivial when distinct",
			Gen:  genC34},
	)
}

var markup = []string{"<script>alert(1)</script>", "a&b", "&lt;", "&amp;lt;", "\"quoted\"", "it's", "<b>bold</b>", "</pre>", "<img src=x onerror=y>", "]]>", "<!--", "x<y>z", "&#34;", "<a href=\"/show/x\">", "%3Cscript%3E", "{{.}}", "QUERY", "%s%d", "a?b=c#d"}

var markupNames = []string{"a<b>c", "<script>x", "a&b", "a&amp;b", "x\"y", "it's", "100%", "a%20b", "a?b", "a#b", "a#L3", "sp ace", "+plus", "a=b", "QUERY", "é", "a;b", "a>b", "%s", "[x]", "{y}", "a@b", "~t~x", "a,b", "世界"}

func (g *genCtx) markupLine() string {
	var sb strings.Builder
	for i := 0; i < 1+g.r.n(4); i++ {
		if g.r.p(1, 2) {
			sb.WriteString(pick(g.r, markup))
		} else {
			sb.WriteString(g.word())
		}
		sb.WriteString(pick(g.r, []string{" ", "", "\t"}))
	}
	return sb.String()
}

// markupTree adds files and directories with markup in names and contents.
func (g *genCtx) markupTree(n int) []Edit {
	var es []Edit
	for i := 0; i < n; i++ {
		p := pick(g.r, tops)
		if g.r.p(1, 3) {
			p += "/d" + pick(g.r, markupNames)
		}
		p += fmt.Sprintf("/m%d%s", g.r.n(30), pick(g.r, markupNames))
		if g.r.p(1, 12) {
			to := pick(g.r, []string{"/w/a", "a", "/nowhere", "../b", "."})
			if len(es) > 0 && g.r.p(2, 3) {
				to = pick(g.r, es).Path
			}
			es = append(es, Edit{Op: "symlink", Path: p, To: to})
			g.large = append(g.large, p)
			continue
		}
		if g.r.p(1, 10) { // not text, but looks like a page
			d := pick(g.r, []string{"<html><script>alert(1)</script>\x01", "<!DOCTYPE html>\n<body onload=x>\x00", "<?xml version=\"1.0\"?><svg xmlns=\"x\">\x02", "%PDF-1.4\x01", "\x89PNG\r\n\x1a\n\x00", "<h1>x\r\n</h1>"})
			es = append(es, Edit{Op: "write", Path: p, Data: []byte(d)})
			continue
		}
		var sb strings.Builder
		for j := 0; j < g.r.n(8); j++ {
			sb.WriteString(g.markupLine() + "\n")
		}
		if g.r.p(1, 5) {
			sb.WriteString(g.markupLine())
		}
		es = append(es, Edit{Op: "write", Path: p, Data: []byte(sb.String())})
	}
	return es
}

func newWebBuilder(g *genCtx, prop string, files int) *builder {
	b := newBuilder(g, prop, treeOpt{files: files, lines: 10, zips: g.r.p(1, 5), links: g.r.p(1, 5), fifos: prop == "C13"})
	for _, e := range g.markupTree(2 + g.r.n(8)) {
		if n := b.fs.lookup(e.Path, false); n != nil && n.kind != KReg {
			continue
		}
		b.fs.Apply(e)
		b.p.Tree = append(b.p.Tree, e)
	}
	for i := 0; i < 2; i++ { // larger files
		if !g.r.p(1, 3) {
			continue
		}
		var d []byte
		for k := 0; k < 20+g.r.n(150); k++ {
			d = append(d, g.markupLine()+"\n"...)
		}
		if g.r.p(1, 12) {
			d = append(d, strings.Repeat(g.word()+" ", 14000+g.r.n(6000))...)
			d = append(d, "\nafter\n"...)
		}
		e := Edit{Op: "write", Path: fmt.Sprintf("%s/large%d", pick(g.r, tops), i), Data: d}
		b.fs.Apply(e)
		b.p.Tree = append(b.p.Tree, e)
		g.large = append(g.large, e.Path)
	}
	if g.r.p(1, 12) { // a directory that cannot be read
		e := Edit{Op: "write", Path: "/w/locked/f", Data: g.text(4)}
		c := Edit{Op: "chmod", Path: "/w/locked", Mode: uint32(pick(g.r, []int{0, 0300}))}
		if b.fs.lookup("/w", false).kind == KDir {
			b.fs.Apply(e)
			b.fs.Apply(c)
			b.p.Tree = append(b.p.Tree, e, c)
			g.large = append(g.large, "/w/locked", "/w/locked/f")
		}
	}
	if g.r.p(1, 3) {
		b.p.Knobs = append(b.p.Knobs, fmt.Sprintf("VERIF_GREPBUF=%d", pick(g.r, []int{16384, 20000, 65536})))
	}
	return b
}

func esc(p string) string { return (&url.URL{Path: p}).EscapedPath() }

func (g *genCtx) query(md *Model) url.Values {
	v := url.Values{}
	var data []byte
	if ns := md.names(); len(ns) > 0 {
		data = md.files[pick(g.r, ns)].data
	}
	p := g.pattern(data)
	if g.r.p(1, 6) {
		p = pick(g.r, []string{"<script>", "&", "\"", "alert", "&(amp|lt);", "b>", "it's", "onerror", "QUERY", "[<>&\"']"})
	}
	v.Set("q", p)
	if g.r.p(1, 5) {
		v.Set("f", g.fpat())
	}
	return v
}

// webReq is one well-formed request.
func (g *genCtx) webReq(fs *FS, md *Model) WebReq {
	files := fs.Files("/")
	switch g.r.n(12) {
	case 0, 1, 2, 3, 4, 5:
		v := g.query(md)
		if g.r.p(1, 8) {
			return WebReq{Target: "/", Form: v.Encode()}
		}
		return WebReq{Target: "/?" + v.Encode()}
	case 6, 7, 8:
		if len(g.large) > 0 && g.r.p(1, 2) {
			return WebReq{Target: "/show" + esc(pick(g.r, g.large))}
		}
		for i := 0; i < 20 && len(files) > 0; i++ {
			f := pick(g.r, files)
			if strings.HasPrefix(f, "/w") || strings.HasPrefix(f, "/srv") {
				return WebReq{Target: "/show" + esc(f)}
			}
		}
		return WebReq{Target: "/show/w"}
	case 9:
		d := pick(g.r, tops)
		if len(files) > 0 && g.r.p(1, 2) {
			d, _ = splitPath(pick(g.r, files))
			d = strings.TrimSuffix(d, "/")
		}
		return WebReq{Target: "/show" + esc(d)}
	case 10:
		v := url.Values{}
		if g.r.p(1, 2) {
			v.Set("q", pick(g.r, []string{"a(b", "*x", "<script>(", "[z-a]", "a{2,1}", "\"><script>alert(1)</script>(", "(?<n", "x**\"&"}))
		} else {
			v.Set("q", "the")
			v.Set("f", pick(g.r, []string{"a(b", "<img src=x>(", "[\"", "&("}))
		}
		return WebReq{Target: "/?" + v.Encode()}
	}
	return WebReq{Target: pick(g.r, []string{"/", "/_static/viewer.css", "/_static/viewer.js", "/?q=", "/nothing", "/show/w/none%3Cscript%3E", "/show/", "/_static/", "/_static/none"})}
}

// webSched draws the points at which the schedule of requests changes.
func (g *genCtx) webSched(reqs int) (sw []Switch) {
	used := map[int]bool{}
	add := func(at int) {
		if !used[at] {
			used[at] = true
			sw = append(sw, Switch{at, g.r.n(reqs)})
		}
	}
	switch g.r.n(6) {
	case 0, 1: // mostly early
		for i := 0; i < 1+g.r.n(40); i++ {
			add(g.r.n(1 << uint(1+g.r.n(11))))
		}
	case 2: // anywhere in a long run
		for i := 0; i < 1+g.r.n(60); i++ {
			add(g.r.n(1 << uint(6+g.r.n(13))))
		}
	case 3: // a burst
		at := g.r.n(1 << uint(6+g.r.n(12)))
		gap := pick(g.r, []int{1, 4, 30})
		for i := 0; i < 20+g.r.n(150); i++ {
			at += 1 + g.r.n(gap)
			add(at)
		}
	default: // all the time
		gap := pick(g.r, []int{4, 20, 100, 500, 2500})
		at := 0
		for i := 0; i < 50+g.r.n(400); i++ {
			at += 1 + g.r.n(2*gap)
			add(at)
		}
	}
	sort.Slice(sw, func(i, j int) bool { return sw[i].Step < sw[j].Step })
	return sw
}

func (g *genCtx) webSpec(reqs []WebReq) *WebSpec {
	if len(reqs) > 1 && g.r.p(1, 8) {
		return &WebSpec{Reqs: reqs, Yield: pick(g.r, []int{1, 1, 2, 10}), YieldSeed: g.r.u64() >> 33, Turns: 1 + g.r.n(pick(g.r, []int{1, 2, 10}))}
	}
	return &WebSpec{Reqs: reqs, Yield: pick(g.r, []int{0, 2, 5, 20, 100, 1000}), YieldSeed: g.r.u64() >> 33, Sched: g.webSched(len(reqs))}
}

func genC12(g *genCtx) *Job {
	b := newWebBuilder(g, "C12", 3+g.r.n(12))
	b.iopt.must = true
	b.index()
	if g.r.p(1, 3) {
		b.edit(2)
		b.index()
	}
	var s *Step
	late := 0
	md0 := b.md
	if g.r.p(1, 3) {
		if g.r.p(1, 2) {
			b.swap()
		} else {
			b.edit(1 + g.r.n(5))
		}
		s = b.index()
		s.Procs = []*ProcSpec{nil, s.Procs[0]}
		s.Kind = "web"
		s.Sched = g.switches(2+g.r.n(12), 2, 60+g.r.n(150))
		late = g.r.n(4)
	} else {
		if g.r.p(1, 4) {
			b.edit(1 + g.r.n(4))
		}
		s = b.add(Step{Kind: "web", Procs: []*ProcSpec{nil}})
	}
	var reqs []WebReq
	n := 2 + g.r.n(8)
	some := []WebReq{g.webReq(b.fs, b.md), g.webReq(b.fs, b.md), g.webReq(b.fs, b.md)}
	few := g.r.p(1, 3)
	for i := 0; i < n; i++ {
		if few {
			reqs = append(reqs, pick(g.r, some))
		} else if i > 0 && g.r.p(1, 4) {
			reqs = append(reqs, reqs[g.r.n(i)])
		} else if g.r.p(1, 2) {
			reqs = append(reqs, WebReq{Target: "/?" + g.query(md0).Encode()})
		} else {
			reqs = append(reqs, g.webReq(b.fs, b.md))
		}
	}
	for i := 0; i < late; i++ { // after the index was replaced, if it is
		r := WebReq{Target: "/?" + g.query(b.md).Encode(), Final: true}
		if g.r.p(1, 2) {
			r = reqs[g.r.n(n)]
			r.Final = true
		}
		reqs = append(reqs, r)
	}
	sp := &ProcSpec{Bin: "csweb", Web: g.webSpec(reqs)}
	g.perturb(sp)
	s.Procs[0] = sp
	return b.job()
}

var badRequests = []string{
	"", "\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n", "BLAH / HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /?q=%zz HTTP/1.1\r\nHost: x\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\nq=a",
	"POST / HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=z\r\nContent-Length: 5\r\n\r\n--z--",
	"GET /show/../../etc/passwd HTTP/1.1\r\nHost: x\r\n\r\n", "HEAD /?q=the HTTP/1.1\r\nHost: x\r\n\r\n", "GET /show HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET //show//w HTTP/1.1\r\nHost: x\r\n\r\n", "GET /show/w%00x HTTP/1.1\r\nHost: x\r\n\r\n", "GET * HTTP/1.1\r\nHost: x\r\n\r\n",
	"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", "GET http://a/?q=the HTTP/1.1\r\nHost: x\r\n\r\n", "GET /?q=the;f=x HTTP/1.1\r\nHost: x\r\n\r\n",
}

func genC13(g *genCtx) *Job {
	b := newWebBuilder(g, "C13", 3+g.r.n(12))
	b.iopt.must = true
	fifo := Edit{Op: "fifo", Path: "/w/pipe"}
	b.fs.Apply(fifo)
	b.p.Tree = append(b.p.Tree, fifo)
	if !g.r.p(1, 8) { // otherwise there is no index
		b.index()
		if g.r.p(1, 3) {
			b.edit(2)
			b.index()
		}
	}
	if g.r.p(1, 3) { // what is indexed is not what is there
		b.edit(1 + g.r.n(5))
	}
	if g.r.p(1, 5) {
		return genRepeat(g, b)
	}
	var s *Step
	switch g.r.n(4) {
	case 0: // the index is replaced meanwhile
		if g.r.p(1, 3) {
			b.swap()
		} else {
			b.edit(1 + g.r.n(4))
		}
		s = b.index()
		s.Kind = "web"
		s.Procs = []*ProcSpec{nil, s.Procs[0]}
		s.Sched = g.switches(2+g.r.n(8), 2, 200)
	case 1: // the index is moved away or cut off, and put back
		ix := b.p.Index
		es := []Edit{{Op: "copy", Path: ix, To: "/keep"}}
		for i := 0; i < 1+g.r.n(3); i++ {
			switch g.r.n(5) {
			case 3:
				es = append(es, Edit{Op: "trunc", Path: ix, Mode: uint32(g.r.n(2) * g.r.n(1000))})
			case 4:
				es = append(es, Edit{Op: "garble", Path: ix, Mode: uint32(g.r.n(1e6)), Data: g.garbage()})
			case 0:
				es = append(es, Edit{Op: "rm", Path: ix})
			case 1:
				es = append(es, Edit{Op: "cut", Path: ix, Mode: uint32(g.r.n(1000))})
			default:
				es = append(es, Edit{Op: "replace", Path: ix, Data: []byte(pick(g.r, []string{"", "x", strings.Repeat("junk ", 300), "csearch index 2\n\ncsearch trlr 2\n", "csearch index 1\n\ncsearch trailr\n"}))})
			}
		}
		es = append(es, Edit{Op: "rename", Path: "/keep", To: ix})
		s = b.add(Step{Kind: "web", Procs: []*ProcSpec{nil, {Bin: "script", Edits: es}}})
		t := 0
		for range es {
			t += 1 + g.r.n(60)
			s.Sched = append(s.Sched, Switch{t, 1}, Switch{t + 1, 0})
			t++
		}
	default:
		s = b.add(Step{Kind: "web", Procs: []*ProcSpec{nil}})
	}
	var reqs []WebReq
	n := 3 + g.r.n(10)
	for i := 0; i < n; i++ {
		r := g.webReq(b.fs, b.md)
		switch {
		case g.r.p(1, 8):
			r = WebReq{Target: "/show/w/pipe"}
		case g.r.p(1, 6):
			r = WebReq{Target: "malformed", Raw: pick(g.r, badRequests) + " "}
		case g.r.p(1, 5):
			r.Hangup = 1 + g.r.n(pick(g.r, []int{10, 700, 5000}))
		}
		if g.r.p(1, 5) {
			r.Alone = true
		}
		reqs = append(reqs, r)
	}
	for i := 0; i < 2+g.r.n(8); i++ {
		r := g.webReq(b.fs, b.md)
		r.Final = true
		reqs = append(reqs, r)
	}
	sp := &ProcSpec{Bin: "csweb", Web: g.webSpec(reqs)}
	g.perturb(sp)
	if g.r.p(3, 4) {
		for i := 0; i < 1+g.r.n(5); i++ {
			f := Fault{Class: pick(g.r, []string{"open", "open", "read", "read", "pread", "fstat", "stat", "mmap", "close", "getdents", "lseek", "munmap"}), N: g.r.n(pick(g.r, []int{3, 12, 60})), Act: "err"}
			f.Errno = pick(g.r, []int{int(syscall.EIO), int(syscall.EACCES), int(syscall.EMFILE), int(syscall.ENFILE), int(syscall.ENOMEM), int(syscall.ENOENT)})
			if g.r.p(1, 2) {
				f.Role = pick(g.r, []string{"index", "src"})
			}
			sp.Faults = append(sp.Faults, f)
		}
	}
	s.Procs[0] = sp
	return b.job()
}

// garbage returns the bytes that damage a file.
func (g *genCtx) garbage() []byte {
	b := make([]byte, 1+g.r.n(pick(g.r, []int{3, 30, 300})))
	for i := range b {
		b[i] = byte(pick(g.r, []int{0, 1, 0xff, 0x80, 0x7f, g.r.n(256)}))
	}
	return b
}

// genRepeat asks the same few things again and again, the same calls failing
// each time.
func genRepeat(g *genCtx, b *builder) *Job {
	var block []WebReq
	for i := 0; i < 1+g.r.n(3); i++ {
		r := g.webReq(b.fs, b.md)
		if g.r.p(1, 4) {
			r.Hangup = 1 + g.r.n(pick(g.r, []int{10, 700, 5000}))
		}
		r.Alone = true
		block = append(block, r)
	}
	var reqs []WebReq
	for i := 0; i < 8; i++ {
		reqs = append(reqs, block...)
	}
	ws := &WebSpec{Reqs: reqs, Block: len(block)}
	sp := &ProcSpec{Bin: "csweb", Web: ws}
	files := b.fs.Files("/")
	for i := 0; i < g.r.n(3); i++ {
		f := Fault{Class: pick(g.r, []string{"open", "read", "read", "read", "pread", "fstat", "stat", "mmap", "close", "getdents", "lseek"}), Act: "err", Stick: true}
		f.Errno = pick(g.r, []int{int(syscall.EIO), int(syscall.EACCES), int(syscall.EMFILE), int(syscall.ENOMEM), int(syscall.ENOENT)})
		switch g.r.n(4) {
		case 0:
			f.Role = "index"
		case 1, 2:
			f.Role = "src"
		default:
			if len(files) > 0 {
				f.Path = pick(g.r, files)
			}
		}
		if g.r.p(1, 3) {
			f.N = g.r.n(4)
		}
		sp.Faults = append(sp.Faults, f)
	}
	if len(sp.Faults) > 0 && g.r.p(1, 2) { // aim at what a request reads
		for _, r := range block {
			if t, ok := strings.CutPrefix(r.Target, "/show/"); ok {
				if p, err := url.PathUnescape(t); err == nil {
					sp.Faults[0].Path, sp.Faults[0].Role = "/"+p, ""
					sp.Faults[0].Class = pick(g.r, []string{"read", "getdents", "fstat", "lseek"})
				}
			}
		}
	}
	b.add(Step{Kind: "web", Procs: []*ProcSpec{sp}})
	return b.job()
}

// genLimit asks for about as many matches as a page shows at most.
func genLimit(g *genCtx, b *builder) *Job {
	b.p.Knobs = []string{fmt.Sprintf("VERIF_GREPBUF=%d", pick(g.r, []int{16384, 65536, 1 << 20}))}
	total := 100000 + pick(g.r, []int{-1, 0, 1, 2, 1000, 20000})
	for i, rest := 0, total; rest > 0; i++ {
		n := rest
		if i < 3 {
			n = min(rest, 1+g.r.n(rest+1000))
		}
		rest -= n
		e := Edit{Op: "write", Path: fmt.Sprintf("/w/lim%d", i), Data: []byte(strings.Repeat("qqq limit\n", n))}
		b.fs.Apply(e)
		b.p.Tree = append(b.p.Tree, e)
	}
	s := Step{Kind: "index", Procs: []*ProcSpec{{Bin: "cindex", Args: []string{"/w"}}}}
	b.shadow(s.Procs[0])
	b.add(s)
	reqs := []WebReq{{Target: "/?q=qqq+limit"}}
	if g.r.p(1, 2) {
		reqs = append(reqs, WebReq{Target: "/?q=q+l&f=lim[0-9]$"})
	}
	b.add(Step{Kind: "web", N: 2, Procs: []*ProcSpec{{Bin: "csweb", Web: &WebSpec{Reqs: reqs}}}})
	return b.job()
}

func genC34(g *genCtx) *Job {
	b := newWebBuilder(g, "C34", 3+g.r.n(10))
	for _, e := range g.markupTree(6 + g.r.n(10)) {
		if n := b.fs.lookup(e.Path, false); n != nil && n.kind != KReg {
			continue
		}
		b.fs.Apply(e)
		b.p.Tree = append(b.p.Tree, e)
	}
	b.iopt.must = true
	if g.r.p(1, 150) {
		return genLimit(g, b)
	}
	b.index()
	if g.r.p(1, 3) {
		b.edit(2)
		if g.r.p(1, 2) {
			b.index()
		}
	}
	var reqs []WebReq
	for i := 0; i < 4+g.r.n(6); i++ {
		reqs = append(reqs, g.webReq(b.fs, b.md))
	}
	ws := g.webSpec(reqs)
	ws.Sched, ws.Yield, ws.Turns = nil, 0, 0
	sp := &ProcSpec{Bin: "csweb", Web: ws}
	g.perturb(sp)
	b.add(Step{Kind: "web", N: 10, Procs: []*ProcSpec{sp}})
	g.html = true
	for i := 0; i < 2; i++ {
		b.search()
	}
	var from []WebReq
	for i := 0; i < 3; i++ {
		from = append(from, g.webReq(b.fs, b.md))
	}
	b.add(Step{Kind: "web-links", N: 12, Seed: g.r.u64(), Procs: []*ProcSpec{{Bin: "csweb", Web: &WebSpec{Reqs: from}}}})
	return b.job()
}

// doWebLinks asks for pages and follows a sample of their links: each must
// lead to the file or directory that its text names.
func (w *World) doWebLinks(s *Step) *Violation {
	type goal struct {
		target, want, from string
	}
	var goals []goal
	for _, r := range s.Procs[0].Web.Reqs {
		resp, v := w.solo(w.fs, r)
		if v != nil {
			return v
		}
		x := parseResp(resp)
		if !x.ok || x.status != 200 || !isPageType(x.ctype()) {
			continue
		}
		bits, msg := scanPage(x.body)
		if msg != "" {
			return w.viol("page", "%s: %s", r.Target, msg)
		}
		u, err := url.Parse(r.Target)
		if err != nil {
			continue
		}
		header := strings.HasPrefix(u.Path, "/show/")
		crumb, crumbs := "", header
		for i, b := range bits {
			if b.tag != "a" || i+1 >= len(bits) {
				continue
			}
			label := bits[i+1].text
			href, err := url.Parse(b.attr["href"])
			if err != nil {
				return w.viol("link", "%s: bad link %q", r.Target, b.attr["href"])
			}
			t := u.ResolveReference(href)
			switch {
			case u.Path == "/":
				k := strings.LastIndexByte(label, ':')
				if k < 0 || strings.Contains(label, ".zip\x01") {
					continue
				}
				goals = append(goals, goal{t.RequestURI(), label[:k], r.Target})
			case crumbs && label != "" && t.Path == "/":
				crumbs = false // the link to the start page ends the path
			case crumbs: // the page's own path, each element a link
				if label == "" || label == "\n" || strings.HasPrefix(bits[i+1].tag, "/") {
					continue
				}
				crumb += "/" + label
				if strings.HasPrefix(path.Clean(strings.TrimPrefix(u.Path, "/show"))+"/", crumb+"/") {
					goals = append(goals, goal{t.RequestURI(), crumb, r.Target})
				}
			case header:
				dir := strings.TrimSuffix(strings.TrimPrefix(u.Path, "/show"), "/")
				n := w.fs.lookup(dir, true)
				if n == nil || n.kind != KDir || n.kids[label] == nil {
					continue
				}
				goals = append(goals, goal{t.RequestURI(), dir + "/" + label, r.Target})
			}
		}
	}
	if len(goals) == 0 {
		return nil
	}
	r := newRand(s.Seed)
	for i := 0; i < s.N; i++ {
		gl := pick(r, goals)
		target := gl.target
		for hop := 0; ; hop++ {
			resp, v := w.solo(w.fs, WebReq{Target: target})
			if v != nil {
				return v
			}
			x := parseResp(resp)
			if x.status >= 300 && x.status < 400 && hop < 4 {
				loc := ""
				for _, l := range strings.Split(x.header, "\r\n") {
					if v, ok := strings.CutPrefix(l, "Location: "); ok {
						loc = v
					}
				}
				u, err := url.Parse(target)
				if err == nil {
					if lu, err := u.Parse(loc); err == nil && loc != "" {
						target = lu.RequestURI()
						continue
					}
				}
			}
			w.tot.Checks["links followed"]++
			if msg := judgeShow(w.fs, gl.want, x); msg != "" {
				return w.viol("link", "the link for %q on %s leads to %s: %s", gl.want, gl.from, target, msg)
			}
			break
		}
	}
	return nil
}
