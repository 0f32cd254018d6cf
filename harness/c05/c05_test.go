package c05

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	if os.Geteuid() == 0 {
		fmt.Println("HARNESS these cases only run as an unprivileged user")
		os.Exit(3)
	}
	mon.Main(t, "C05",
		mon.Family{Name: "plain", Quick: 10000, Thorough: 100000, Fn: func(c *mon.Case) { run(c, plain(c.R)) }},
		mon.Family{Name: "hostile", Quick: 20000, Thorough: 200000, Fn: func(c *mon.Case) { run(c, hostile(c.R)) }},
		mon.Family{Name: "known", Quick: len(known), Thorough: len(known), Fn: func(c *mon.Case) {
			var i int
			fmt.Sscanf(c.ID, "known/%d", &i)
			run(c, known[i])
		}},
	)
}

// decl is what a torrent declares. A nil path list is a single file torrent.
type decl struct {
	name  string
	paths [][]string
}

func (d decl) String() string { return fmt.Sprintf("name=%q paths=%q", d.name, d.paths) }

const abs = "@ABS@" // replaced by the absolute scratch directory

// known are classics.
var known = []decl{
	{"../evil", nil},
	{"..", nil},
	{".", nil},
	{"", nil},
	{"/", nil},
	{abs + "/victim/secret", nil},
	{"../victim/secret", nil},
	{"a/../../victim/secret", nil},
	{"../victim", [][]string{{"secret"}}},
	{"..", [][]string{{"victim", "secret"}}},
	{abs, [][]string{{"victim", "secret"}}},
	{"t", [][]string{{"..", "..", "victim", "secret"}}},
	{"t", [][]string{{"../../victim/secret"}}},
	{"t", [][]string{{"ok"}, {"..", "..", "evil"}}},
	{"t", [][]string{{"d", "..", "..", "..", "evil"}}},
	{"t", [][]string{{abs + "/evil"}}},
	{"t", [][]string{{"..", "..", "outside", "x"}}},
	{"t", [][]string{{}}},
	{"t", [][]string{{""}}},
	{"t", [][]string{{"."}}},
	{"t", [][]string{{".."}}},
	{"t", [][]string{{"a", ".."}}},
	{"t", [][]string{{"..", ".."}}},
	{"..", [][]string{{"evil"}}},
	{"../outside", [][]string{{"evil"}}},
	{"../out-sibling", nil},
	{"../outx", [][]string{{"evil"}}},
	{"../out/../evil", nil},
	{"x/../../evil", [][]string{{"a"}}},
	{"t", [][]string{{"a"}, {"a", "b"}}},
	{"t", [][]string{{"a", "b"}, {"a"}}},
	{"t\x00x", nil},
	{"t", [][]string{{"a\x00b"}}},
	{"t", [][]string{{"...", "...."}}},
	{"..a", [][]string{{"..b", "c.."}}},
	{"....", nil},
	{`..\evil`, nil},
	{"t", [][]string{{`..\..\evil`}}},
	{"~", nil},
	{"$HOME", [][]string{{"~", "$PWD"}}},
}

func plainName(r *rand.Rand) string {
	pool := []string{"a", "b", "file.txt", "A", "...", "..x", "x..", ".hidden", "with space", "ünïcode", "日本", "-rf", "~", "a.b.c", "con", "%2e%2e", "x'y", "tab\ty", "new\nline", "dir", "out", "victim", "CAPS", "0"}
	s := pool[r.IntN(len(pool))]
	if r.IntN(4) == 0 {
		s += strings.Repeat("z", r.IntN(60))
		if r.IntN(8) == 0 {
			s += strings.Repeat("l", 180-len(s))
		}
	}
	return s
}

// plain makes torrents that have to be accepted.
func plain(r *rand.Rand) decl {
	d := decl{name: plainName(r)}
	if r.IntN(3) == 0 {
		return d
	}
	// a tree without conflicts: directories are d-*, files are f-*
	seen := map[string]bool{}
	files, depth := 6, 4
	switch r.IntN(40) {
	case 0:
		files = 150
	case 1, 2:
		depth = 24
	}
	for n := 1 + r.IntN(files); n > 0; n-- {
		var p []string
		for k := r.IntN(depth); k > 0; k-- {
			p = append(p, "d-"+plainName(r))
			if r.IntN(3) == 0 {
				p[len(p)-1] = "same"
			}
		}
		if len(strings.Join(p, "/")) > 2500 {
			p = p[:4] // far from the longest path of the system
		}
		last := plainName(r)
		for strings.HasPrefix(last, "d-") || last == "same" || seen[strings.Join(append(p, last), "/")] {
			last += "_"
		}
		p = append(p, last)
		seen[strings.Join(p, "/")] = true
		d.paths = append(d.paths, p)
	}
	return d
}

func hostileElement(r *rand.Rand) string {
	switch r.IntN(14) {
	case 0, 1, 2:
		return ".."
	case 3:
		return "."
	case 4:
		return ""
	case 5:
		return "victim"
	case 6:
		return "secret"
	case 7:
		return strings.Repeat("../", 1+r.IntN(2)) + []string{"victim/secret", "evil", "out-sibling/evil", "outx"}[r.IntN(4)]
	case 8:
		return abs + []string{"", "/", "/evil", "/victim/secret", "/victim/evil", "/out", "/out/x"}[r.IntN(7)]
	case 9:
		return "/"
	case 10:
		return []string{"a/b", "a//b", "/a", "a/", "./a", "a/.", "a/..", "../out/x", "..//victim", "a/../b", "x/../../evil"}[r.IntN(11)]
	case 11:
		return []string{"nul\x00x", "\x00", strings.Repeat("n", 300), `..\x`, "keep", "...", ". .", ".. "}[r.IntN(8)]
	}
	return plainName(r)
}

// hostile makes torrents from nasty elements.
func hostile(r *rand.Rand) decl {
	d := decl{name: plainName(r)}
	if r.IntN(2) == 0 {
		d.name = hostileElement(r)
	}
	if r.IntN(4) == 0 {
		return d
	}
	d.paths = [][]string{}
	for n := 1 + r.IntN(3); n > 0; n-- {
		p := []string{}
		for k := r.IntN(5); k > 0; k-- {
			if r.IntN(2) == 0 {
				p = append(p, hostileElement(r))
			} else {
				p = append(p, plainName(r))
			}
		}
		d.paths = append(d.paths, p)
	}
	return d
}

type entry struct {
	dir  bool
	data string
}

func snapshot(c *mon.Case, root string) map[string]entry {
	m := map[string]entry{}
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		e := entry{dir: d.IsDir()}
		if !e.dir {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			e.data = string(b)
		}
		m[rel] = e
		return nil
	})
	if err != nil {
		c.Harness("snapshot: %v", err)
	}
	return m
}

func isPlain(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\\x00") && len(s) < 250
}

// verdict by the text of the property: where each file lands (relative to the
// scratch root), if that is allowed, and if the torrent has to be accepted.
func verdict(root string, d decl) (files []string, outside, accept bool) {
	accept = isPlain(d.name) && d.name != "keep" && d.name != "keepdir" // those exist
	locate := func(el ...string) {
		full := filepath.Join(append([]string{root, "out"}, el...)...)
		rel, _ := filepath.Rel(root, full)
		files = append(files, rel)
		if rel == "out" || !strings.HasPrefix(rel, "out/") {
			outside = true
		}
	}
	if d.paths == nil {
		locate(d.name)
		return files, outside, accept && !outside
	}
	for _, p := range d.paths {
		if len(p) == 0 {
			accept = false
		}
		for _, e := range p {
			accept = accept && isPlain(e)
		}
		locate(append([]string{d.name}, p...)...)
	}
	s := append([]string(nil), files...)
	sort.Strings(s)
	for i := 1; i < len(s); i++ {
		if s[i] == s[i-1] {
			accept = false
		}
		for j := 0; j < i; j++ {
			if strings.HasPrefix(s[i], s[j]+"/") {
				accept = false
			}
		}
	}
	return files, outside, accept && !outside
}

func run(c *mon.Case, d decl) {
	r := c.R
	root, clean := c.Dir()
	defer clean()
	must := func(err error) {
		if err != nil {
			c.Harness("%v", err)
		}
	}
	for _, dir := range []string{"out", "victim", "outside", "out-sibling", "out/keepdir"} {
		must(os.Mkdir(filepath.Join(root, dir), 0o755))
	}
	for _, f := range []string{"victim/secret", "out/keep", "out/keepdir/keep", "evidence.txt"} {
		must(os.WriteFile(filepath.Join(root, f), []byte("precious "+f), 0o644))
	}
	d.name = strings.ReplaceAll(d.name, abs, root)
	for i, p := range d.paths {
		q := append([]string{}, p...)
		for j := range q {
			q[j] = strings.ReplaceAll(q[j], abs, root)
		}
		if p != nil {
			d.paths = append(append([][]string{}, d.paths[:i]...), append([][]string{q}, d.paths[i+1:]...)...)
		}
	}

	files := []swarm.File{}
	if d.paths == nil {
		files = append(files, swarm.File{Length: 1 + r.IntN(50)})
	}
	total := 0
	for _, p := range d.paths {
		f := swarm.File{Path: p, Length: r.IntN(30)}
		files = append(files, f)
		total += f.Length
	}
	if d.paths != nil && total == 0 {
		files[0].Length = 3
	}
	spec := swarm.NewSpec(r, d.name, d.paths == nil, files, 1+r.IntN(20), []string{"http://tracker.test/announce"}, nil)
	var m bencode.Metainfo
	if err := bencode.Unmarshal(spec.Doc, &m); err != nil {
		c.Fail("torrent file with %s does not decode: %v", d, err)
	}

	out := filepath.Join(root, "out")
	must(os.Chdir(root))
	defer os.Chdir("/")
	switch r.IntN(5) {
	case 0:
		out = "out"
	case 1:
		out = "./out/"
	case 2:
		out += "/"
	case 3:
		out = root + "/victim/../out"
	}
	where, outside, accept := verdict(root, d)
	// a torrent that was loaded before is loaded again
	if accept && r.IntN(4) == 0 {
		for _, w := range where {
			if r.IntN(3) == 0 {
				continue
			}
			must(os.MkdirAll(filepath.Join(root, filepath.Dir(w)), 0o755))
			must(os.WriteFile(filepath.Join(root, w), bytes.Repeat([]byte("old"), r.IntN(40)), 0o644))
		}
		c.Count("trees with earlier files", 1)
	}
	before := snapshot(c, root)
	var t *torrent.Torrent
	var err error
	c.Call(fmt.Sprintf("load torrent %s", d), func() { t, err = torrent.New(&m, out, zap.NewNop()) })
	after := snapshot(c, root)
	declared := map[string]bool{}
	for _, w := range where {
		declared[w] = true
	}
	compare := func(after map[string]entry, when string) {
		for p, e := range before {
			got, ok := after[p]
			if !ok {
				c.Fail("%s: %s disappeared (%s, output %s)", when, p, d, out)
			}
			if got != e && !(declared[p] && strings.HasPrefix(p, "out/")) {
				c.Fail("%s: %s was changed (%s, output %s)", when, p, d, out)
			}
		}
		for p := range after {
			if _, ok := before[p]; !ok && !strings.HasPrefix(p, "out/") {
				c.Fail("%s: %s was created outside of the output directory (%s, output %s)", when, p, d, out)
			}
		}
	}
	compare(after, "loading")
	c.Eval(1)
	c.Count("directory trees compared", 1)
	if err != nil {
		c.Check(!accept, "torrent with ordinary names is refused: %v (%s)", err, d)
		c.Count("torrents refused", 1)
		c.Distinct("refused", d.String())
		return
	}
	defer t.Close()
	c.Check(!outside, "torrent with a file outside of the output directory is accepted (%s, output %s)", d, out)
	c.Count("torrents accepted", 1)
	for _, w := range where {
		e, ok := after[w]
		if !ok || e.dir {
			c.Fail("declared file %s was not created (%s, output %s)", w, d, out)
		}
	}
	for p, e := range after {
		if _, ok := before[p]; ok || declared[p] {
			continue
		}
		needed := false
		for _, w := range where {
			needed = needed || strings.HasPrefix(w, p+"/")
		}
		if !e.dir || !needed {
			c.Fail("loading created %s, which the torrent does not declare (%s, output %s)", p, d, out)
		}
	}
	// storing content touches nothing else either
	if accept {
		ch := make(chan *util.PeerMessage, spec.NumPieces())
		for i := 0; i < spec.NumPieces(); i++ {
			ch <- util.NewPeerMessage(ref.PieceFrame(uint32(i), 0, spec.Piece(i)).Body())
		}
		close(ch)
		c.Call("store pieces", func() { t.WritePiece(ch, stats.NewStats(uint64(spec.Length))) })
		final := snapshot(c, root)
		compare(final, "storing content")
		pos := 0
		for i, f := range files {
			if got := final[where[i]]; !bytes.Equal([]byte(got.data), spec.Content[pos:pos+f.Length]) {
				c.Fail("content of %s is not stored in %s (%s)", d.paths, where[i], d)
			}
			pos += f.Length
		}
		if len(final) != len(after) {
			c.Fail("storing content created files (%s)", d)
		}
	}
	c.Distinct("accepted", d.String())
	c.Sample("%s -> %q", d, where)
}
