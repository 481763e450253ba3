package main

// The executable reference model: what an index should contain after a run of
// cindex over a given tree, and what a search over given files should print.
// Written from the documentation, not from the implementation's data
// structures: sets of names with the text each had when it was read.

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

type Entry struct {
	data     []byte
	optional bool // may be missing (its source failed while being read)
	wild     bool // changed while the run was reading it: nothing is known of it
	free     bool // changes while it is searched: what is printed for it is not specified
}

type Model struct {
	absent bool
	roots  []string
	files  map[string]*Entry
	wildD  []string // directories disturbed during the run: anything below is optional and wild
}

func absentModel() *Model { return &Model{absent: true, files: map[string]*Entry{}} }

// pathLess orders paths so that everything below a directory follows it
// directly ('/' sorts first).
func pathLess(a, b string) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		x, y := a[i], b[i]
		if x == '/' {
			x = 0
		}
		if y == '/' {
			y = 0
		}
		if x != y {
			return x < y
		}
	}
	return len(a) < len(b)
}

func under(p, root string) bool {
	if p == root || root == "/" {
		return true
	}
	return strings.HasPrefix(p, root) && (p[len(root)] == '/' || p[len(root)] == 1)
}

// dedupRoots sorts roots and drops those inside another one.
func dedupRoots(rs []string) []string {
	rs = append([]string(nil), rs...)
	sort.Slice(rs, func(i, j int) bool { return pathLess(rs[i], rs[j]) })
	var out []string
	for _, r := range rs {
		if len(out) > 0 && under(r, out[len(out)-1]) {
			continue
		}
		out = append(out, r)
	}
	return out
}

func hiddenName(e string) bool {
	return e != "" && (e[0] == '.' || e[0] == '#' || e[0] == '~' || e[len(e)-1] == '~')
}

func badName(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] < ' ' {
			return true
		}
	}
	return p == ""
}

// isText is the documented definition of an indexable file.
func isText(d []byte) bool {
	if bytes.IndexByte(d, 0) >= 0 || !utf8.Valid(d) {
		return false
	}
	for _, l := range bytes.SplitAfter(d, []byte("\n")) {
		if len(l) > 2000 {
			return false
		}
	}
	if len(d) > 20000 {
		seen := map[[3]byte]bool{}
		for i := 0; i+3 <= len(d); i++ {
			seen[[3]byte{d[i], d[i+1], d[i+2]}] = true
		}
		if len(seen) > 20000 {
			return false
		}
	}
	return true
}

// scan returns the entries a run of cindex over root should produce.
func scan(fs *FS, root string, zipOn bool, skip func(path string) bool, into map[string]*Entry) {
	var rec func(n *Inode, p string)
	rec = func(n *Inode, p string) {
		_, base := splitPath(p)
		if hiddenName(base) {
			return
		}
		switch n.kind {
		case KDir:
			if n.mode&0400 == 0 || n.mode&0100 == 0 {
				return
			}
			for _, k := range sortedKids(n) {
				rec(n.kids[k], strings.TrimSuffix(p, "/")+"/"+k)
			}
		case KReg:
			if n.mode&0400 == 0 || badName(p) || skip != nil && skip(p) {
				return
			}
			if zipOn && strings.HasSuffix(p, ".zip") {
				for _, m := range zipMembers(n.data) {
					if m.err == nil && isText(m.data) {
						into[p+"\x01"+m.name] = &Entry{data: m.data}
					}
				}
				return
			}
			if isText(n.data) {
				into[p] = &Entry{data: n.data}
			}
		}
	}
	if n := fs.lookup(root, false); n != nil {
		rec(n, root)
	}
}

type zmember struct {
	name string
	data []byte
	err  error
}

func zipMembers(d []byte) []zmember {
	r, err := zip.NewReader(bytes.NewReader(d), int64(len(d)))
	if err != nil {
		return nil
	}
	var out []zmember
	last := map[string]int{}
	for i, f := range r.File {
		last[f.Name] = i
	}
	for i, f := range r.File {
		m := zmember{name: f.Name}
		if last[f.Name] != i { // the last one of a name counts
			m.name = ""
		}
		if badName(m.name) {
			m.err = errors.New("malformed name")
			out = append(out, m)
			continue
		}
		rc, err := f.Open()
		if err == nil {
			// a byte at a time, to get all there is before an error
			var one [1]byte
			for {
				n, e := rc.Read(one[:])
				m.data = append(m.data, one[:n]...)
				if e != nil {
					if e != io.EOF {
						err = e
					}
					break
				}
			}
		}
		m.err = err
		out = append(out, m)
	}
	return out
}

// troubles lists names that a run of cindex over roots must complain about:
// what it meets, and cannot read or must not put in the index.
func troubles(fs *FS, roots []string, zipOn bool) (out []string) {
	var rec func(n *Inode, p string)
	rec = func(n *Inode, p string) {
		_, base := splitPath(p)
		switch {
		case hiddenName(base):
		case n.kind == KDir:
			if n.mode&0400 == 0 || n.mode&0100 == 0 && len(n.kids) > 0 {
				out = append(out, base)
				return
			}
			for _, k := range sortedKids(n) {
				rec(n.kids[k], strings.TrimSuffix(p, "/")+"/"+k)
			}
		case n.kind != KReg:
		case n.mode&0400 == 0:
			out = append(out, base)
		case badName(p):
			for _, e := range strings.Split(p, "/") {
				if e != "" && badName(e) {
					out = append(out, e)
					break
				}
			}
		case zipOn && strings.HasSuffix(p, ".zip"):
			r, err := zip.NewReader(bytes.NewReader(n.data), int64(len(n.data)))
			if err != nil {
				out = append(out, base)
				return
			}
			_ = r
			for _, m := range zipMembers(n.data) {
				if m.err != nil && m.name != "" && isText(m.data) {
					out = append(out, base, m.name)
				}
			}
		}
	}
	for _, r := range dedupRoots(roots) {
		if n := fs.lookup(r, false); n != nil {
			rec(n, r)
		} else if _, base := splitPath(r); !hiddenName(base) {
			out = append(out, base)
		}
	}
	return
}

// indexed returns the model after a successful cindex over args (absolute
// roots; empty means the roots already indexed).
func (m *Model) indexed(fs *FS, args []string, reset, zipOn bool) *Model {
	n := &Model{files: map[string]*Entry{}}
	roots := dedupRoots(args)
	if len(args) == 0 {
		roots = m.roots
	}
	for _, r := range roots {
		scan(fs, r, zipOn, nil, n.files)
	}
	n.roots = roots
	if !reset && !m.absent {
		for name, e := range m.files {
			if !inAny(name, roots) {
				n.files[name] = e
			}
		}
		n.roots = dedupRoots(append(append([]string(nil), m.roots...), roots...))
	}
	return n
}

func inAny(name string, roots []string) bool {
	for _, r := range roots {
		if under(name, r) {
			return true
		}
	}
	return false
}

// key identifies the model's content.
func (m *Model) key() uint64 {
	h := uint64(7)
	if m.absent {
		return 1
	}
	for _, r := range m.roots {
		h = mix64(h, hashBytes([]byte(r)))
	}
	for _, n := range m.names() {
		e := m.files[n]
		h = mix64(h, hashBytes([]byte(n)))
		h = mix64(h, hashBytes(e.data))
		if e.optional {
			h++
		}
		if e.wild {
			h += 2
		}
	}
	for _, d := range m.wildD {
		h = mix64(h, hashBytes([]byte(d)))
	}
	return h
}

// distinct drops repeated models.
func distinct(ms []*Model) []*Model {
	if len(ms) < 2 {
		return ms
	}
	seen := map[uint64]bool{}
	var out []*Model
	for _, m := range ms {
		if k := m.key(); !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	return out
}

func (m *Model) names() []string {
	ns := make([]string, 0, len(m.files))
	for n := range m.files {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return pathLess(ns[i], ns[j]) })
	return ns
}

// weaken returns a copy in which the named paths (and everything below them)
// are optional, or wild.
func (m *Model) weaken(paths []string, wild bool) *Model {
	n := &Model{absent: m.absent, roots: m.roots, files: map[string]*Entry{}, wildD: m.wildD}
	for k, e := range m.files {
		c := *e
		if inAny(k, paths) {
			c.optional = true
			c.wild = c.wild || wild
		}
		n.files[k] = &c
	}
	if wild {
		n.wildD = append(append([]string(nil), n.wildD...), paths...)
	}
	return n
}

// ---- searching ----

type GrepOpt struct {
	Pat        string
	I, N, L, C bool
	HTML       bool
	H, V       bool
	Pre, Post  int
}

func (o *GrepOpt) compile() (*regexp.Regexp, error) {
	p := "(?m)" + o.Pat
	if o.I {
		p = "(?i)" + p
	}
	return regexp.Compile(p)
}

func splitLines(d []byte) [][]byte {
	ls := bytes.Split(d, []byte("\n"))
	if len(ls[len(ls)-1]) == 0 {
		ls = ls[:len(ls)-1]
	}
	return ls
}

func matchLines(re *regexp.Regexp, d []byte, invert bool) (nos []int, lines [][]byte) {
	lines = splitLines(d)
	for i, l := range lines {
		if re.Match(l) != invert {
			nos = append(nos, i)
		}
	}
	return
}
