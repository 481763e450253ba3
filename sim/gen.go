package main

// Generators of trees, contents, patterns and histories.

import (
	"archive/zip"
	"bytes"
	"fmt"
	"path"
	"regexp"
	"slices"
	"strings"
)

// Words share prefixes, suffixes and letters, so that patterns built from
// them hit several files and trigrams are shared unevenly.
var words = []string{
	"func", "function", "Func", "return", "returned", "xbbb", "xccc", "xddd", "xaaab", "xaaac", "xeee",
	"index", "indexed", "search", "research", "Search", "SEARCH", "abc", "abcd", "abcde", "bcd", "a", "bb",
	"foo_bar", "foo.bar", "foo bar", "x(y)", "[z]", "a+b", "a*b", "c:\\d", "\"q\"", "if", "for", "0123456789",
	"éclair", "naïve", "\u212aelvin", "Kelvin", "ma\u017fs", "mass", "ΣΑΣ", "σας", "ÉCLAIR", "İi", "世界", "世", "日本語", "😀", "ΩΩ", "trigram", "gram", "grammar", "zzzz", "zzzzz", "TODO", "todo",
}

type genCtx struct {
	r     *Rand
	uniq  int
	bases []string // directories
	large []string // files of a few kilobytes
	html  bool     // searches use -html
	raw   bool     // cgrep's input is not UTF-8
	over  bool     // lines longer than the grep buffer
	bytes bool     // names that are not UTF-8
	big   bool     // crowded directories, long lines, long paths, many trigrams
}

func (g *genCtx) word() string {
	if g.r.p(1, 6) {
		n := 3 + g.r.n(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0129_"[g.r.n(37)]
		}
		return string(b)
	}
	return pick(g.r, words)
}

func (g *genCtx) line() string {
	n := g.r.n(7)
	var sb strings.Builder
	if g.r.p(1, 5) {
		sb.WriteString(pick(g.r, []string{"\t", "  ", "\t\t"}))
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(pick(g.r, []string{" ", " ", " ", "_", "(", ", ", "", ".", "\t"}))
		}
		sb.WriteString(g.word())
	}
	return sb.String()
}

// text makes an indexable file of up to max lines.
func (g *genCtx) text(max int) []byte {
	var b bytes.Buffer
	n := g.r.n(max + 1)
	if g.r.p(1, 12) {
		n *= 5
	}
	crlf := g.r.p(1, 12)
	for i := 0; i < n; i++ {
		l := g.line()
		if g.r.p(1, 60) {
			l = strings.Repeat(l+" ", 1+900/(len(l)+1))
			if g.big && g.r.p(1, 2) { // nearly too long
				if pad := 1800 + g.r.n(150) - len(l); pad > 0 {
					l += strings.Repeat("x", pad)
				}
			}
		}
		b.WriteString(l)
		if crlf {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	if g.r.p(1, 3) { // a word of its own, so every version is distinguishable
		g.uniq++
		fmt.Fprintf(&b, "uniq%dx%d", g.uniq, g.r.n(1000))
		if g.r.p(1, 2) {
			b.WriteByte('\n')
		}
	} else if g.r.p(1, 8) && b.Len() > 0 {
		b.Truncate(b.Len() - 1)
	}
	d := b.Bytes()
	for len(d) > 0 && !isText(d) {
		d = d[:len(d)/2]
		for len(d) > 0 && d[len(d)-1] >= 0x80 {
			d = d[:len(d)-1]
		}
	}
	return d
}

// nontext makes a file that must not be indexed.
func (g *genCtx) nontext() []byte {
	d := append([]byte(nil), g.text(10)...)
	at := g.r.n(len(d) + 1)
	ins := func(x string) []byte { return append(append(append([]byte(nil), d[:at]...), x...), d[at:]...) }
	switch g.r.n(5) {
	case 0:
		return ins("\x00")
	case 1:
		return append(d, "abc\xff\xfe def\n"...)
	case 2:
		return append(append(d, strings.Repeat("long line ", 300)...), '\n')
	case 3:
		return append(d, "\n\x80tail\n"...)
	default:
		if g.r.p(3, 4) {
			return ins("\x00\x01\x02")
		}
		// too many distinct trigrams
		var b bytes.Buffer
		for i := 0; i < 11000; i++ {
			x := g.r.u64()
			for j := 0; j < 5; j++ {
				b.WriteByte(byte('!' + x%90))
				x /= 90
			}
			if i%20 == 19 {
				b.WriteByte('\n')
			}
		}
		return b.Bytes()
	}
}

// dense makes a text of n random words of 5 letters.
func (g *genCtx) dense(n int) []byte {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		x := g.r.u64()
		for j := 0; j < 5; j++ {
			b.WriteByte(byte('!' + x%90))
			x /= 90
		}
		if i%20 == 19 {
			b.WriteByte('\n')
		}
	}
	b.WriteString("\ngrammar\n")
	return b.Bytes()
}

func (g *genCtx) content(max int) []byte {
	switch {
	case g.r.p(1, 25):
		return nil
	case g.r.p(1, 16):
		return g.nontext()
	case g.big && g.r.p(1, 300): // long files
		t := append(g.text(30), "\ngrammar\n"...)
		d := bytes.Repeat(t, 1+pick(g.r, []int{20_000, 70_000, 140_000, 300_000})/len(t))
		if g.r.p(1, 2) {
			d = append(d, g.text(5)...)
		}
		if isText(d) {
			return d
		}
		return t
	case g.big && g.r.p(1, 150): // nearly too many trigrams
		return g.dense(1500 + g.r.n(1800))
	}
	return g.text(max)
}

var dirElems = []string{"a", "ab", "a b", "a.b", "a-b", "a0", "A", "b", "src", "pkg", "é", "世", "a!b", "a+", "zz"}
var fileElems = []string{"a", "ab", "a b", "a.c", "a-c", "b.txt", "main.go", "x.zip.txt", "A", "README", "é.txt", "世.md", "a!", "a,b", "zz.c", "0", "a%d", "a\"q\"", "a'b", "a\\b", "a;b", "A.ZIP"}
var oddElems = []string{".git", ".hidden", "#auto#", "~tmp", "back~", "ctl\x02x", "nl\nx", ".a", "a\x7fb"}

// rawElems are names in other encodings than UTF-8.
var rawElems = []string{"\xe9t\xe9", "x\xff", "\x80y.go", "caf\xe9.txt", "\xc3", "a\xe4\xb8", "\xfe\xff"}

var longElems = []string{strings.Repeat("longdir", 30), strings.Repeat("longdir", 30) + "x", "L" + strings.Repeat("o", 120), strings.Repeat("世", 80)}

func (g *genCtx) elem(dir bool, odd bool) string {
	if odd && g.r.p(1, 14) {
		return pick(g.r, oddElems)
	}
	if g.bytes && g.r.p(1, 5) {
		return pick(g.r, rawElems)
	}
	if dir {
		if g.big && g.r.p(1, 30) {
			return pick(g.r, longElems)
		}
		return pick(g.r, dirElems)
	}
	e := pick(g.r, fileElems)
	if g.r.p(1, 2) {
		e = fmt.Sprintf("f%d%s", g.r.n(40), e)
	}
	if g.r.p(1, 60) {
		e += strings.Repeat("n", 200)
	}
	return e
}

var tops = []string{"/w", "/w/a", "/w/ab", "/w/a b", "/w/a.b", "/srv", "/w/b", "/wx"}

func (g *genCtx) newPath(odd bool) string {
	p := pick(g.r, tops)
	for g.r.p(2, 5) {
		p += "/" + g.elem(true, odd)
	}
	return p + "/" + g.elem(false, odd)
}

type treeOpt struct {
	files int
	lines int
	big   bool
	odd   bool
	zips  bool
	links bool
	fifos bool   // edits turn files into FIFOs
	modes bool   // all sorts of permissions, sizes that stat does not know
	keep  string // a path edits must leave in place
}

func (g *genCtx) tree(o treeOpt) []Edit {
	var es []Edit
	for _, t := range tops {
		es = append(es, Edit{Op: "mkdir", Path: t})
	}
	for i := 0; i < o.files; i++ {
		p := g.newPath(o.odd)
		switch {
		case o.links && g.r.p(1, 30):
			es = append(es, Edit{Op: "symlink", Path: p, To: pick(g.r, []string{"/w/a", "a", "/nowhere", "../b"})})
		case o.links && g.r.p(1, 40):
			es = append(es, Edit{Op: "fifo", Path: p})
		case o.odd && g.r.p(1, 40):
			es = append(es, Edit{Op: "write", Path: p, Data: g.content(o.lines)}, Edit{Op: "chmod", Path: p, Mode: 0})
		case o.zips && g.r.p(1, 4):
			es = append(es, Edit{Op: "write", Path: p + ".zip", Data: g.zip()})
		default:
			es = append(es, Edit{Op: "write", Path: p, Data: g.content(o.lines)})
			if o.modes && g.r.p(1, 12) {
				es = append(es, Edit{Op: "chmod", Path: p, Mode: pick(g.r, []uint32{0400, 0444, 0600, 0755, 0777, 01644, 02755, 04755, 0640, 07777, 0500, 02644})})
			}
			if o.modes && g.r.p(1, 25) {
				es = append(es, Edit{Op: "lie", Path: p, Mode: 1 + uint32(g.r.n(2))})
			}
		}
	}
	if o.modes && g.r.p(1, 10) {
		d := pick(g.r, tops)
		es = append(es, Edit{Op: "chmod", Path: d, Mode: pick(g.r, []uint32{0555, 0700, 01777, 02755, 04755, 0777, 0511, 06755})})
	}
	if g.r.p(1, 4) { // one directory with many small files: several name groups
		d := pick(g.r, tops) + "/many"
		for i := 0; i < 18+g.r.n(40); i++ {
			es = append(es, Edit{Op: "write", Path: fmt.Sprintf("%s/n%03d", d, i*g.r.n(3)+i), Data: g.text(2)})
		}
	}
	if g.big && g.r.p(1, 25) { // a crowd: file numbers and their distances take several bytes
		d := pick(g.r, tops) + "/crowd"
		common := g.text(3)
		for i, n := 0, pick(g.r, []int{130, 260, 300, 600}); i < n; i++ {
			data := common
			switch g.r.n(8) {
			case 0:
				data = nil
			case 1, 2:
				data = []byte(g.word() + "\n")
			}
			es = append(es, Edit{Op: "write", Path: fmt.Sprintf("%s/%d", d, i), Data: data})
		}
	}
	if g.big && g.r.p(1, 120) { // parts of the index larger than any buffer
		d := pick(g.r, tops) + "/heavy"
		for i, n := 0, 10+g.r.n(15); i < n; i++ {
			es = append(es, Edit{Op: "write", Path: fmt.Sprintf("%s/%d", d, i), Data: g.dense(3000)})
		}
	}
	return es
}

var zipNames = []string{"a", "b/c", "b", "b.c", "dir/x.txt", "dir/y.txt", "x y", "é", "z.go", "dir-x", "a/b/c/d", "0", "M"}

var oddZipNames = []string{".hid", "d/.hid/x", "a~", "#a#", "~a", "/abs/x", "/", "../up", "./a", "a//b", "a/../b", "b\\c", " ", "inner.zip", "a.zip/b", "-n", strings.Repeat("long/", 60) + "x", ".."}

func (g *genCtx) zip() []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	n, lines := g.r.n(6), 12
	if g.r.p(1, 12) {
		n, lines = 13+g.r.n(30), 3
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := pick(g.r, zipNames)
		if g.r.p(1, 3) {
			name = fmt.Sprintf("%s%d", name, g.r.n(30))
		}
		if g.r.p(1, 40) {
			name = pick(g.r, []string{"a\nb", "b/\x01", "tab\there", "z\x00", "dir/"})
		} else if g.r.p(1, 30) { // names a walk would not meet, and cindex takes as they are
			name = pick(g.r, oddZipNames)
		} else if g.bytes && g.r.p(1, 8) {
			name = pick(g.r, rawElems)
		}
		if used[name] && !g.r.p(1, 8) {
			continue
		}
		used[name] = true
		h := &zip.FileHeader{Name: name, Method: uint16([]int{0, 8}[g.r.n(2)])}
		f, err := zw.CreateHeader(h)
		if err != nil {
			die("zip: %v", err)
		}
		f.Write(g.content(lines))
	}
	zw.Close()
	d := b.Bytes()
	switch g.r.n(24) {
	case 0:
		d = d[:g.r.n(len(d))]
	case 1: // a flipped byte
		d = append([]byte(nil), d...)
		d[g.r.n(len(d))] ^= 1 << g.r.n(8)
	}
	return d
}

// edits changes an existing tree.
func (g *genCtx) edits(fs *FS, n int, o treeOpt) []Edit {
	var files []string
	for _, f := range fs.Files("/") {
		if strings.HasPrefix(f, "/w") || strings.HasPrefix(f, "/srv") {
			files = append(files, f)
		}
	}
	var es []Edit
	for i := 0; i < n; i++ {
		if len(files) == 0 || g.r.p(1, 3) {
			p := g.newPath(o.odd)
			if o.zips && g.r.p(1, 4) {
				es = append(es, Edit{Op: "write", Path: p + ".zip", Data: g.zip()})
			} else {
				es = append(es, Edit{Op: "write", Path: p, Data: g.content(o.lines)})
			}
			continue
		}
		f := pick(g.r, files)
		data := func() []byte {
			if strings.HasSuffix(f, ".zip") && g.r.p(4, 5) {
				return g.zip()
			}
			return g.content(o.lines)
		}
		switch g.r.n(9) {
		case 0, 1:
			if o.fifos && g.r.p(1, 3) { // a file becomes a FIFO
				es = append(es, Edit{Op: "rm", Path: f}, Edit{Op: "fifo", Path: f})
				break
			}
			es = append(es, Edit{Op: "rm", Path: f})
		case 2, 3, 4:
			es = append(es, Edit{Op: "write", Path: f, Data: data()})
		case 5:
			es = append(es, Edit{Op: "replace", Path: f, Data: data()})
		case 6:
			es = append(es, Edit{Op: "rm", Path: path.Dir(f)})
		case 7:
			es = append(es, Edit{Op: "rename", Path: f, To: f + "x"})
		case 8: // a file becomes a directory
			es = append(es, Edit{Op: "rm", Path: f}, Edit{Op: "write", Path: f + "/" + g.elem(false, o.odd), Data: data()})
		}
	}
	return es
}

// ---- patterns ----

func (g *genCtx) lit(data []byte) string {
	if len(data) > 0 && g.r.p(2, 3) {
		ls := splitLines(data)
		if len(ls) > 0 {
			l := []rune(string(ls[g.r.n(len(ls))]))
			for i, c := range l {
				if c == 0xfffd {
					l = l[:i]
					break
				}
			}
			if len(l) > 0 {
				k := min(len(l), 1+g.r.n(8))
				at := g.r.n(len(l) - k + 1)
				return string(l[at : at+k])
			}
		}
	}
	return g.word()
}

// regex builds a pattern over literals taken from data and the word list.
func (g *genCtx) regex(data []byte, depth int) string {
	r := g.r
	if depth <= 0 || r.p(1, 3) {
		return regexp.QuoteMeta(g.lit(data))
	}
	sub := func() string { return g.regex(data, depth-1) }
	switch r.n(21) {
	case 19: // alternatives that share some of their words
		q := func() string { return regexp.QuoteMeta(g.lit(data)) }
		a, b, c := q(), q(), q()
		x := pick(r, []string{".*", ".", "", "[ab]?", `\w*`, ".*" + q(), "(?:" + q() + ")?"})
		if r.p(1, 2) {
			b, c = b+x, c+x
		}
		return pick(r, []string{"(?:" + a + "|" + b + ")" + x + "|(?:" + a + "|" + c + ")" + x, "(?:" + c + "|" + a + ")" + x + "|(?:" + b + "|" + a + "|" + q() + ")" + x,
			"(?:" + a + "|" + b + ").*(?:" + a + "|" + c + ")", "(?:" + a + ".*" + b + "|" + a + ".*" + c + "|" + b + ")", a + x + "|(?:" + b + "|" + a + ")" + x, "(?:" + a + "|" + b + ")" + x + "|" + a + x + "|" + c})
	case 20: // several anchors and boundaries in one place
		return pick(r, []string{`\b^` + sub(), `^\b` + sub(), `\B^` + sub(), `^\B` + sub(), sub() + `$\b`, sub() + `\b$`, sub() + `$\B`, sub() + `\B$`, `(?:\b|^)` + sub(), `(?:^\b|x)` + sub(), "^^" + sub(), sub() + "$$",
			`\b\b` + sub(), `\b\B` + sub(), "(?:^)*" + sub(), `(?:\b)+` + sub(), `(?:\b^|` + sub() + `)\w+`, "^" + sub() + "$", `\b` + sub() + `\b`, "^(?:" + sub() + "|$)", "(?:^|$)", `^\b$`, `^\B$`, `\B`, `\b`, "^$|" + sub(), "$^"})
	case 18: // many states
		if !r.p(1, 4) {
			return sub() + "|" + sub()
		}
		switch r.n(4) {
		case 0:
			var alts []string
			for i := 15 + r.n(50); i > 0; i-- {
				alts = append(alts, regexp.QuoteMeta(g.lit(data)))
			}
			return "(?:" + strings.Join(alts, "|") + ")"
		case 1:
			return pick(r, []string{"[ab]*a[ab]{6}", "(?:a|b|c)*b[a-d]{7}", "(?:" + sub() + "|.){0,30}" + sub(), `\w*z\w{5}`})
		case 2:
			return regexp.QuoteMeta(g.lit(data)) + fmt.Sprintf(".{%d,%d}", r.n(20), 20+r.n(60)) + regexp.QuoteMeta(g.lit(data))
		default:
			return fmt.Sprintf("(?:%s){%d,}", pick(r, []string{"z", "x?", "[a-z]", `\pL`, ".", "(?i:s|k)"}), 2+r.n(40))
		}
	case 13: // counted and lazy repetition
		return sub() + "(?:" + sub() + ")" + pick(r, []string{"{0,1}", "{0,2}", "{0}", "{1}", "{2}", "{1,}", "{2,}", "{0,}", "{3}", "{2,4}", "??", "*?", "+?"}) + sub()
	case 14: // a literal or class of one character, repeated, in the middle
		return regexp.QuoteMeta(g.lit(data)) + pick(r, []string{"?", "*", "+", "{0,1}", "{0,3}", "{1,2}", "{2}", "?b?", "?.?c?"}) + sub()
	case 15: // classes of all sizes, in and out of ASCII
		c := pick(r, []string{"[a-z]", "[a-zA-Z0-9_]", "[ -~]", "[a-d]", "[b-h]", "[^a-z]", "[[:alpha:]]", "[[:^digit:]]", `[\w.]`, `\W`, `\D`, `\S`, `\s`, `\pL`, `\p{Greek}`, `\PL`,
			`[\x{7f}-\x{801}]`, `[\x{e0}-\x{ff}]`, `[\x{3b1}-\x{3c9}]`, `[日本語世]`, `[\x{4e00}-\x{ffff}]`, `[\x{ff00}-\x{1f700}]`, "[éa]", `\x{4e16}`, `\x{80}`, `[\x{80}-\x{ff}]`, `\x{7f}`, `[\x{7f}-\x{80}]`, `[^\x00-\x{7f}]`, "[ab][cd][ef]", "[aA][bB][cC][dD]"})
		return pick(r, []string{"", sub()}) + c + pick(r, []string{"", "", "+", "*", "?", "{2}", "{3,}"}) + sub()
	case 16: // groups that may be empty, anchors and boundaries anywhere
		return pick(r, []string{"(|" + sub() + ")" + sub(), "(?:" + sub() + "|)" + sub(), sub() + "(" + sub() + "||" + sub() + ")", "(?:^|" + sub() + ")" + sub(), sub() + "(?:$|" + sub() + ")",
			"(?:" + sub() + "$)", `\B` + sub(), sub() + `\B` + sub(), sub() + `\b` + sub(), "(?:(" + sub() + ")?(" + sub() + ")?)+", "((" + sub() + ")*)*" + sub(), "(?P<n>" + sub() + ")", "(?U:" + sub() + ".+)" + sub()})
	case 17: // case folding of single letters and words
		w := g.lit(data)
		return pick(r, []string{"(?i)" + regexp.QuoteMeta(w), "(?i:" + regexp.QuoteMeta(strings.ToUpper(w)) + ")" + sub(), sub() + "(?i:" + regexp.QuoteMeta(strings.ToLower(w)) + ")", "(?i)" + sub() + "(?-i:" + regexp.QuoteMeta(w) + ")", "(?i:k)elvin", "(?i)[j-l]ELVIN", "(?i)MASS", "(?i)σας", "(?i)é", "(?i:[a-f]+)" + sub()})
	case 0, 1:
		n := 2 + r.n(4)
		var alts []string
		for i := 0; i < n; i++ {
			alts = append(alts, sub())
		}
		if r.p(1, 3) {
			alts[r.n(n)] += ".*" + regexp.QuoteMeta(g.word())
		}
		return "(" + strings.Join(alts, "|") + ")"
	case 2:
		p := pick(r, []string{"x", "ab", "fo", "se", "z"})
		var alts []string
		for i := 0; i < 2+r.n(4); i++ {
			alts = append(alts, pick(r, []string{"bbb", "ccc", "ddd", "aaa.*eee", "aaab", "eee", "bcd", "arch", "o_bar", "zz", "o.bar.*"}))
		}
		return p + "(" + strings.Join(alts, "|") + ")"
	case 3:
		return sub() + ".*" + sub()
	case 4:
		return sub() + sub()
	case 5:
		return "(" + sub() + ")?" + sub()
	case 6:
		return "(" + sub() + ")+"
	case 7:
		return "(" + sub() + ")*" + sub()
	case 8:
		return "(?i:" + sub() + ")"
	case 9:
		return "^" + sub()
	case 10:
		return sub() + "$"
	case 11:
		return `\b` + regexp.QuoteMeta(pick(r, []string{"func", "abc", "index", "search", "foo", "a", "zzzz"})) + pick(r, []string{"", `\b`, `\w*`})
	case 12:
		return pick(r, []string{"[a-c]", "[A-Za-z]", `\d`, `\w`, ".", "[xyz]", `\pL`, "[^a]", "[éè]"}) + pick(r, []string{"", "+", "*", "{2}", "{1,3}"}) + sub()
	default:
		return sub() + pick(r, []string{"[a-c]", "[bcd]e?", "[abx][bcd]", `\w+`, "..", "[^ ]*"}) + sub()
	}
}

func okPattern(p string) bool {
	if strings.ContainsAny(p, "\n\r\x00") || strings.HasPrefix(p, "-") {
		return false
	}
	_, err := regexp.Compile("(?m)" + p)
	return err == nil
}

// piece is part of a line of data.
func (g *genCtx) piece(data []byte, max int) []rune {
	ls := splitLines(data)
	if len(ls) == 0 {
		return nil
	}
	l := []rune(string(ls[g.r.n(len(ls))]))
	for i, c := range l {
		if c == 0xfffd {
			l = l[:i]
			break
		}
	}
	k := min(len(l), 2+g.r.n(max-1))
	at := g.r.n(len(l) - k + 1)
	return l[at : at+k]
}

// generalise returns a regular expression that matches l, among others.
func (g *genCtx) generalise(l []rune, depth int) string {
	r := g.r
	q := func(x []rune) string { return regexp.QuoteMeta(string(x)) }
	if len(l) == 0 {
		return pick(r, []string{"", "", "", "()", "z?", "(?:abc)?", "q*", "(|x)", "(?:xy.*z)?"})
	}
	if depth <= 0 || r.p(1, 6) {
		return q(l)
	}
	sub := func(x []rune) string { return g.generalise(x, depth-1) }
	i, j := r.n(len(l)+1), r.n(len(l)+1)
	if i > j {
		i, j = j, i
	}
	decoy := func() string {
		switch r.n(7) {
		case 0:
			return q(l[:i])
		case 1:
			return q(l[i:])
		case 2:
			return q(l) + pick(r, []string{"x", "bc", "[ab]", ".*zz"})
		case 3:
			return pick(r, []string{"x", "bc", "[ab]", "zz.*"}) + q(l)
		case 4:
			return q(l[:i]) + q(l[j:])
		case 5:
			return q(l[:i]) + ".*" + regexp.QuoteMeta(g.word())
		default:
			return g.regex(nil, 0)
		}
	}
	switch r.n(14) {
	case 0, 1, 2, 3:
		alts := []string{sub(l)}
		for n := 1 + r.n(4); n > 0; n-- {
			alts = append(alts, decoy())
		}
		k := r.n(len(alts))
		alts[0], alts[k] = alts[k], alts[0]
		return pick(r, []string{"(", "(?:"}) + strings.Join(alts, "|") + ")"
	case 4: // a class in the place of a character
		k := r.n(len(l))
		c := l[k]
		cl := pick(r, []string{"", "ab", "xyz", "a-f", "A-Z0-9", "é世", "0-9_"})
		e := regexp.QuoteMeta(string(c))
		if strings.ContainsRune("]^-", c) {
			e = "\\" + string(c)
		}
		if r.p(1, 4) && c > 0x30 && c < 0x7a {
			e = fmt.Sprintf(`\x{%x}-\x{%x}`, int(c)-r.n(20), int(c)+r.n(20))
		}
		return sub(l[:k]) + "[" + e + cl + "]" + pick(r, []string{"", "", "+", "{1,2}", "{1}"}) + sub(l[k+1:])
	case 5:
		return sub(l[:i]) + pick(r, []string{".*", ".*?", ".{0,40}", "(?:.*)"}) + sub(l[j:])
	case 6:
		return sub(l[:i]) + strings.Repeat(".", j-i) + sub(l[j:])
	case 7:
		return sub(l[:i]) + "(?:" + decoy() + ")" + pick(r, []string{"?", "*", "{0,1}", "{0,2}", "{0}"}) + sub(l[i:])
	case 8:
		return "(?:" + sub(l) + ")" + pick(r, []string{"+", "{1,2}", "?", "{1,}", "*"})
	case 9:
		c := func(x []rune) string {
			s := string(x)
			if r.p(1, 2) {
				return regexp.QuoteMeta(strings.ToUpper(s))
			}
			return regexp.QuoteMeta(s)
		}
		return sub(l[:i]) + "(?i:" + c(l[i:j]) + ")" + sub(l[j:])
	default:
		return sub(l[:i]) + sub(l[i:])
	}
}

func (g *genCtx) pattern(data []byte) string {
	for i := 0; i < 20; i++ {
		p := ""
		switch {
		case len(data) > 0 && g.r.p(2, 5):
			p = g.generalise(g.piece(data, 14), 2+g.r.n(3))
		case g.r.p(1, 20):
			p = pick(g.r, []string{"^$", "$", "^", "^ *$", "^.", ".$", "(?i)^todo", "()", "a|", ".*"})
		default:
			p = g.regex(data, 2)
		}
		if p != "" && okPattern(p) {
			return p
		}
	}
	return "abc"
}

// grepFlags are the output options shared by cgrep and csearch.
func (g *genCtx) grepFlags(v bool) []string {
	var a []string
	r := g.r
	if r.p(1, 2) {
		a = append(a, "-n")
	}
	if r.p(1, 6) {
		a = append(a, "-i")
	}
	if r.p(1, 12) {
		a = append(a, "-c")
	} else if r.p(1, 10) {
		a = append(a, "-h")
	}
	if r.p(1, 12) {
		a = append(a, "-l")
	}
	if v && r.p(1, 8) {
		a = append(a, "-v")
	}
	if r.p(1, 5) {
		switch r.n(3) {
		case 0:
			a = append(a, "-A", fmt.Sprint(r.n(4)))
		case 1:
			a = append(a, "-B", fmt.Sprint(r.n(4)))
		default:
			a = append(a, "-C", fmt.Sprint(r.n(3)))
		}
	}
	return cleanFlags(a)
}

// cleanFlags drops combinations whose meaning is not documented.
func cleanFlags(a []string) []string {
	has := func(f string) bool {
		for _, x := range a {
			if x == f {
				return true
			}
		}
		return false
	}
	if has("-c") && has("-l") {
		for i, x := range a {
			if x == "-l" {
				return append(a[:i:i], a[i+1:]...)
			}
		}
	}
	return a
}

func (g *genCtx) fpat() string {
	return pick(g.r, []string{`\.txt$`, "^/w/a/", "/a", "b", `\.go$|README`, "^/srv", "nothing-such", "é", `/f[0-9]+a`, "many"})
}

// search makes csearch arguments aimed at the contents of md.
func (g *genCtx) search(md *Model) []string {
	var data []byte
	if ns := md.names(); len(ns) > 0 {
		data = md.files[pick(g.r, ns)].data
	}
	a := g.grepFlags(false)
	if g.r.p(1, 6) {
		a = append(a, "-f", g.fpat())
	}
	if g.r.p(1, 8) {
		a = append(a, "-brute")
	}
	if g.r.p(1, 20) {
		a = append(a, "-verbose")
	}
	if g.html || g.r.p(1, 40) {
		a = append(slices.DeleteFunc(a, func(x string) bool { return x == "-h" }), "-html")
	}
	return append(a, "--", g.pattern(data))
}

// ---- indexing command lines ----

type idxOpt struct {
	zips  bool
	roots []string // allowed roots; nil for the full repertoire
	must  bool     // always name roots
	weird bool     // missing, nested, duplicate, symlink, file roots
}

func (g *genCtx) roots(fs *FS, o idxOpt) []string {
	r := g.r
	pool := o.roots
	if pool == nil {
		pool = tops
	}
	n := 1 + r.n(2)
	if r.p(1, 6) {
		n += r.n(3)
	}
	var out []string
	if o.weird && r.p(1, 30) { // file by file
		fl := append(fs.Files("/w"), fs.Files("/srv")...)
		for k := min(len(fl), 80); k > 0; k-- {
			out = append(out, pick(r, fl))
		}
		if len(out) > 0 {
			return out
		}
	}
	for i := 0; i < n; i++ {
		p := pick(r, pool)
		if o.zips && r.p(1, 5) {
			var zs []string
			for _, x := range fs.Files(p) {
				if strings.HasSuffix(x, ".zip") {
					zs = append(zs, x)
				}
			}
			if len(zs) > 0 {
				p = pick(r, zs)
			}
		}
		if o.weird {
			switch {
			case r.p(1, 14):
				p += "/missing"
			case r.p(1, 10):
				if fl := fs.Files(p); len(fl) > 0 {
					p = pick(r, fl)
				}
			case r.p(1, 12) && len(out) > 0:
				p = pick(r, out)
			case r.p(1, 12):
				p += "/" + pick(r, dirElems)
			}
		}
		out = append(out, p)
	}
	return out
}

func (g *genCtx) indexStep(fs *FS, first bool, o idxOpt) Step {
	r := g.r
	sp := &ProcSpec{Bin: "cindex"}
	if r.p(1, 8) {
		sp.Args = append(sp.Args, "-verbose")
	}
	if r.p(1, 10) {
		sp.Args = append(sp.Args, "-check")
	}
	if r.p(1, 12) {
		sp.Args = append(sp.Args, "-stats")
	}
	if !first && r.p(1, 10) {
		sp.Args = append(sp.Args, "-reset")
	}
	if o.zips && r.p(7, 8) {
		sp.Args = append(sp.Args, "-zip")
	}
	if first || o.must || r.p(3, 5) {
		rs := g.roots(fs, o)
		switch {
		case o.weird && r.p(1, 8): // relative to a working directory
			sp.Cwd = pick(r, []string{"/w", "/w/a", "/srv"})
			for i, x := range rs {
				if strings.HasPrefix(x, sp.Cwd+"/") {
					rs[i] = "./" + x[len(sp.Cwd)+1:]
					if r.p(1, 2) {
						rs[i] = x[len(sp.Cwd)+1:]
					}
				}
			}
		case o.weird && r.p(1, 8):
			for i := range rs {
				rs[i] = pick(r, []string{rs[i] + "/", rs[i] + "/.", rs[i] + "//", rs[i] + "/../" + path.Base(rs[i])})
			}
		}
		for _, x := range rs {
			if strings.HasPrefix(x, "-") || fsControl(x) {
				continue
			}
			sp.Args = append(sp.Args, x)
		}
	}
	return Step{Kind: "index", Procs: []*ProcSpec{sp}}
}

func fsControl(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' {
			return true
		}
	}
	return false
}

// perturb adds the disturbances that must never change a result: fragmented
// reads and interrupted system calls.
func (g *genCtx) perturb(sp *ProcSpec) {
	r := g.r
	if r.p(1, 2) {
		sp.Frag = pick(r, []int{1, 2, 3, 7, 16, 61, 256, 1000, 4096})
		if r.p(1, 2) {
			sp.FragS = r.u64()
		}
	}
	if r.p(1, 3) {
		sp.Eintr = pick(r, []int{5, 30, 120})
	}
}

// knobs picks buffer sizes and thresholds.
func (g *genCtx) knobs() []string {
	r := g.r
	var k []string
	if r.p(2, 3) {
		k = append(k, fmt.Sprintf("VERIF_NPOST=%d", pick(r, []int{1, 2, 3, 7, 20, 50, 113, 500, 2000, 10000})))
	}
	if r.p(1, 2) {
		k = append(k, fmt.Sprintf("VERIF_BUFSIZE=%d", pick(r, []int{64, 100, 257, 512, 1000, 4096, 16384})))
	}
	if r.p(1, 2) {
		k = append(k, fmt.Sprintf("VERIF_INBUF=%d", pick(r, []int{1, 2, 3, 5, 64, 1000, 4096})))
	}
	if r.p(1, 2) {
		k = append(k, fmt.Sprintf("VERIF_RT=%c", 'A'+r.n(26)))
	}
	return k
}

func (g *genCtx) newPlan(prop string) *Plan {
	p := &Plan{Property: prop, Index: "/home/u/.csearchindex", Home: "/home/u"}
	switch g.r.n(4) {
	case 0:
		p.Index = "/home/u/idx"
	case 1:
		p.Index, p.Home = "/var/cs/index", ""
		p.Rel = g.r.p(1, 3)
	}
	if g.r.p(1, 4) {
		p.Tmp = "/scratch"
	}
	if g.r.p(1, 2) {
		p.Order = g.r.u64()
	}
	p.Knobs = g.knobs()
	g.bytes = g.r.p(1, 6) && !slices.Contains([]string{"C12", "C13", "C34"}, prop)
	return p
}

// make generates one job.
func (pd *PropDef) make(g *genCtx) *Job {
	j := pd.Gen(g)
	n := 0
	count := func(es []Edit) {
		for _, e := range es {
			n += len(e.Data)
			if e.Op == "bigzip" {
				n += 1e6
			}
		}
	}
	count(j.Plan.Tree)
	for _, s := range j.Plan.Steps {
		count(s.Edits)
	}
	if n > 60_000 { // single-byte reads of a lot of data look like a hang
		raiseKnobs(j.Plan.Knobs, n)
		for i := range j.Plan.Steps {
			s := &j.Plan.Steps[i]
			raiseKnobs(s.Knobs, n)
			for _, sp := range s.Procs {
				raiseKnobs(sp.Env, n)
				if sp.Frag > 0 {
					sp.Frag = max(sp.Frag, n/1000)
				}
			}
		}
	}
	return j
}

func raiseKnobs(ks []string, n int) {
	m := 1
	if n >= 1e6 {
		m = 1000
	}
	for i, k := range ks {
		for name, least := range map[string]int{"VERIF_INBUF": 64, "VERIF_BUFSIZE": 1000 * m, "VERIF_NPOST": 100 * m} {
			var v int
			if x, ok := strings.CutPrefix(k, name+"="); ok {
				if fmt.Sscan(x, &v); v < least {
					ks[i] = fmt.Sprintf("%s=%d", name, least)
				}
			}
		}
	}
}
