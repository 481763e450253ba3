package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// grepBlock returns the lines that grepping data under name must print,
// and whether anything matched.
func grepBlock(o *GrepOpt, re *regexp.Regexp, name string, data []byte) ([]string, bool) {
	nos, lines := matchLines(re, data, o.V)
	if len(nos) == 0 {
		return nil, false
	}
	if o.L {
		return []string{name}, true
	}
	if o.C {
		return []string{fmt.Sprintf("%s: %d", name, len(nos))}, true
	}
	prefix := name + ":"
	if o.H {
		prefix = ""
	}
	var out []string
	for _, i := range nos {
		switch {
		case o.Pre+o.Post > 0:
			out = append(out, fmt.Sprintf("%s%d:", prefix, i+1))
			lo, hi := max(0, i-o.Pre), min(len(lines), i+o.Post+1)
			for k, l := range dedent(lines[lo:hi], i-lo) {
				mark := "\t\t"
				if lo+k == i {
					mark = "\t>>\t"
				}
				out = append(out, mark+l)
			}
		case o.N:
			out = append(out, fmt.Sprintf("%s%d:%s", prefix, i+1, lines[i]))
		default:
			out = append(out, prefix+string(lines[i]))
		}
	}
	return out, true
}

// dedent returns lines, of which at is the matching one, the way context mode
// quotes them: without trailing blanks, and without the indentation they have
// in common. Blank lines have no say in that, unless it is a blank line that
// matched: then nothing is cut.
func dedent(lines [][]byte, at int) []string {
	res := make([]string, len(lines))
	for i, l := range lines {
		res[i] = strings.TrimRight(string(l), " \t\r\n")
	}
	ind := res[at][:len(res[at])-len(strings.TrimLeft(res[at], " \t"))]
	for _, l := range res {
		if l == "" {
			continue
		}
		for !strings.HasPrefix(l, ind) {
			ind = ind[:len(ind)-1]
		}
	}
	for i, l := range res {
		res[i] = strings.TrimPrefix(l, ind)
	}
	return res
}

// outLines splits program output into lines.
func outLines(out []byte) ([]string, bool) {
	if len(out) == 0 {
		return nil, true
	}
	if out[len(out)-1] != '\n' {
		return nil, false
	}
	return strings.Split(string(out[:len(out)-1]), "\n"), true
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func quoteLines(ls []string, n int) string {
	s := ""
	for i, l := range ls {
		if i >= n {
			return s + fmt.Sprintf("... (%d lines)", len(ls))
		}
		if len(l) > 120 {
			l = l[:120] + "..."
		}
		s += fmt.Sprintf("%q ", l)
	}
	return s
}

type zipKey struct {
	ino, gen uint64
	p        *byte
	n        int
}

var (
	zipCacheMu sync.Mutex
	zipCache   = map[zipKey]map[string][]byte{}
)

// zipContents returns the readable members of an archive.
func zipContents(n *Inode) map[string][]byte {
	var key zipKey
	if len(n.data) > 0 {
		key = zipKey{n.ino, n.gen, &n.data[0], len(n.data)}
		if len(n.data) > 300_000 {
			zipCacheMu.Lock()
			m := zipCache[key]
			zipCacheMu.Unlock()
			if m != nil {
				return m
			}
		}
	}
	r, err := zip.NewReader(bytes.NewReader(n.data), int64(len(n.data)))
	if err != nil {
		return nil
	}
	m := map[string][]byte{}
	for _, f := range r.File { // last one of a name wins
		delete(m, f.Name)
		rc, err := f.Open()
		if err != nil {
			continue
		}
		if b, err := io.ReadAll(rc); err == nil {
			m[f.Name] = b
		}
	}
	if len(n.data) > 300_000 {
		zipCacheMu.Lock()
		if len(zipCache) > 20 {
			clear(zipCache)
		}
		zipCache[key] = m
		zipCacheMu.Unlock()
	}
	return m
}

// readAs returns what csearch can read under an indexed name right now.
func readAs(fs *FS, name string) ([]byte, bool) {
	if n := fs.lookup(name, true); n != nil {
		if n.kind != KReg || n.mode&0400 == 0 {
			return nil, false
		}
		return n.data, true
	}
	if i := strings.Index(name, ".zip\x01"); i >= 0 {
		n := fs.lookup(name[:i+4], true)
		if n == nil || n.kind != KReg {
			return nil, false
		}
		all := zipContents(n)
		d, ok := all[name[i+5:]]
		return d, ok
	}
	return nil, false
}

type block struct {
	name  string
	lines []string
	must  bool // block must appear; otherwise it may appear, whole
	free  bool // what is printed is not specified: the file has become something other than text
}

// searchBlocks computes, per indexed name, what a search must or may print.
func searchBlocks(m *Model, fs *FS, o *GrepOpt, re, fre *regexp.Regexp, brute bool) []block {
	var bs []block
	for _, name := range m.names() {
		e := m.files[name]
		if fre != nil && !fre.MatchString(name) {
			continue
		}
		if e.free {
			bs = append(bs, block{name: name, free: true})
			continue
		}
		if o.L && o.Pat == "" {
			bs = append(bs, block{name: name, lines: []string{name}, must: !e.optional && !e.wild})
			continue
		}
		cur, ok := readAs(fs, name)
		if !ok {
			continue
		}
		if !utf8.Valid(cur) && !bytes.Equal(cur, e.data) {
			bs = append(bs, block{name: name, free: true})
			continue
		}
		ls, any := grepBlock(o, re, name, cur)
		if !any {
			continue
		}
		must := (brute || bytes.Equal(cur, e.data)) && !e.optional && (!e.wild || brute)
		bs = append(bs, block{name: name, lines: ls, must: must})
	}
	return bs
}

// checkSearch compares program output with one model; "" means consistent.
func checkSearch(m *Model, fs *FS, o *GrepOpt, fpat string, brute bool, out []byte, exit int, loose map[string]bool) string {
	re, err := o.compile()
	if err != nil {
		return "bad pattern: " + err.Error()
	}
	var fre *regexp.Regexp
	if fpat != "" {
		if fre, err = regexp.Compile(fpat); err != nil {
			return "bad pattern: " + err.Error()
		}
	}
	if o.HTML {
		var msg string
		if out, msg = htmlText(o, out); msg != "" {
			return msg
		}
		plain := *o
		plain.N = true
		o = &plain
	}
	bs := searchBlocks(m, fs, o, re, fre, brute)
	ls, ok := outLines(out)
	if !ok {
		return fmt.Sprintf("output does not end in a newline: %q", tail(out))
	}
	if wantExit := 1; exit != wantExit && len(ls) == 0 || len(ls) > 0 && exit != 0 {
		return fmt.Sprintf("exit status %d with %d lines of output", exit, len(ls))
	}
	if o.H && !o.L && !o.C {
		var want []string
		for _, b := range bs {
			if !b.must || len(loose) > 0 {
				return "" // not attributable
			}
			want = append(want, b.lines...)
		}
		if o.Pre+o.Post > 0 && !sameLines(ls, want) {
			// perhaps the files in another order
			all := "\n" + strings.Join(ls, "\n") + "\n"
			for _, b := range bs {
				if len(b.lines) > 0 && !strings.Contains(all, "\n"+strings.Join(b.lines, "\n")+"\n") {
					return fmt.Sprintf("output %s, want %s", quoteLines(ls, 8), quoteLines(want, 8))
				}
			}
		}
		a, c := append([]string(nil), ls...), append([]string(nil), want...)
		sort.Strings(a)
		sort.Strings(c)
		if !sameLines(a, c) {
			return fmt.Sprintf("output %s, want %s", quoteLines(ls, 8), quoteLines(want, 8))
		}
		return ""
	}
	// attribute output lines to names
	byName := map[string][]string{}
	sep := ":"
	if o.L {
		sep = ""
	}
	names := map[string]bool{}
	for n := range m.files {
		names[n] = true
	}
	cur := ""
	for _, l := range ls {
		n := ""
		if o.Pre+o.Post > 0 && !o.L && !o.C && (strings.HasPrefix(l, "\t>>\t") || strings.HasPrefix(l, "\t\t")) {
			n = cur
		} else if o.L {
			n = l
		} else if i := strings.Index(l, sep); i >= 0 {
			n = l[:i]
		}
		if !names[n] {
			return fmt.Sprintf("output line %q names no indexed file", l)
		}
		cur = n
		byName[n] = append(byName[n], l)
	}
	for _, b := range bs {
		got := byName[b.name]
		delete(byName, b.name)
		if b.free {
			continue
		}
		if loose[b.name] {
			if msg := looseBlock(o, got, b.lines); msg != "" {
				return fmt.Sprintf("for %q %s", b.name, msg)
			}
			continue
		}
		if len(got) == 0 && !b.must {
			continue
		}
		if !sameLines(got, b.lines) {
			return fmt.Sprintf("for %q printed %s, want %s", b.name, quoteLines(got, 6), quoteLines(b.lines, 6))
		}
	}
	for n, got := range byName {
		if loose[n] && len(got) <= 1 {
			continue
		}
		return fmt.Sprintf("for %q printed %s, want nothing", n, quoteLines(got, 6))
	}
	return ""
}

func tail(b []byte) string {
	if len(b) > 200 {
		b = b[len(b)-200:]
	}
	return string(b)
}

// parseGrepArgs understands the command lines the generators make.
func parseGrepArgs(args []string) (o GrepOpt, fpat string, brute bool, rest []string) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		num := func() int {
			i++
			n := 0
			fmt.Sscan(args[i], &n)
			return n
		}
		switch a {
		case "-i":
			o.I = true
		case "-n":
			o.N = true
		case "-l":
			o.L = true
		case "-c":
			o.C = true
		case "-h":
			o.H = true
		case "-v":
			o.V = true
		case "-html":
			o.HTML = true
		case "-brute":
			brute = true
		case "-verbose":
		case "-A":
			o.Post = num()
		case "-B":
			o.Pre = num()
		case "-C":
			o.Pre = num()
			o.Post = o.Pre
		case "-f":
			i++
			fpat = args[i]
		case "--":
			if i+1 < len(args) {
				o.Pat = args[i+1]
				rest = args[i+2:]
			}
			return
		default:
			o.Pat = a
			rest = args[i+1:]
			return
		}
	}
	return
}

// looseBlock judges output for a file whose reading failed part way: every
// line but the last must be a real match, in order.
func looseBlock(o *GrepOpt, got, want []string) string {
	if o.L || o.C || o.Pre+o.Post > 0 || o.V {
		return ""
	}
	j := 0
	for i, l := range got {
		for j < len(want) && want[j] != l {
			j++
		}
		if j == len(want) {
			if i == len(got)-1 {
				return ""
			}
			return fmt.Sprintf("printed %q, which is no match", l)
		}
		j++
	}
	return ""
}
