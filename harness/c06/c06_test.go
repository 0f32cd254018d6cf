package c06

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"

	"verif/internal/mon"
	"verif/internal/ref"
)

func Test(t *testing.T) {
	mon.Main(t, "C06",
		mon.Family{Name: "grid", Quick: 1500, Thorough: 1500, Fn: grid},
		mon.Family{Name: "sizes", Quick: 30000, Thorough: 300000, Fn: sizes},
		mon.Family{Name: "extreme", Quick: 20000, Thorough: 200000, Fn: extreme},
		mon.Family{Name: "many", Quick: 80, Thorough: 800, Fn: many},
		mon.Family{Name: "trackers", Quick: 12500, Thorough: 125000, Fn: trackers},
		mon.Family{Name: "hashes", Quick: 6000, Thorough: 60000, Fn: hashes},
	)
}

type geometry struct {
	single   bool
	lens     []int64
	pieceLen int64
	hashes   int // bytes in the hash string
}

func (g geometry) String() string {
	return fmt.Sprintf("single=%v lengths=%v piece length=%d hash bytes=%d", g.single, g.lens, g.pieceLen, g.hashes)
}

// verdict of the property: count and total are valid only when consistent.
func (g geometry) verdict() (consistent bool, total *big.Int, count int64) {
	total = new(big.Int)
	for _, l := range g.lens {
		if l < 0 {
			return false, total, 0
		}
		total.Add(total, big.NewInt(l))
	}
	if g.pieceLen <= 0 || total.Cmp(big.NewInt(math.MaxInt64)) > 0 {
		return false, total, 0
	}
	n := new(big.Int).Add(total, big.NewInt(g.pieceLen-1))
	n.Div(n, big.NewInt(g.pieceLen))
	return n.IsInt64() && n.Int64() < 1<<40 && int64(g.hashes) == 20*n.Int64(), total, n.Int64()
}

func (g geometry) doc(announce []byte, hashes []byte) []byte {
	info := ref.D()
	if g.single {
		info.Put("length", ref.I(g.lens[0]))
	} else {
		fl := ref.L()
		for i, l := range g.lens {
			fl.L = append(fl.L, ref.D("length", ref.I(l), "path", ref.L(ref.S(fmt.Sprintf("f%d", i)))))
		}
		info.Put("files", fl)
	}
	info.Put("name", ref.S("t"))
	info.Put("piece length", ref.I(g.pieceLen))
	info.Put("pieces", ref.B(hashes))
	return ref.D("announce", ref.B(announce), "info", info).Encode()
}

func load(c *mon.Case, doc []byte, what string) (t *torrent.Torrent, err error, done func()) {
	dir, clean := c.Dir()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	c.Call("load "+what, func() {
		var m bencode.Metainfo
		if err = bencode.Unmarshal(doc, &m); err == nil {
			t, err = torrent.New(&m, dir, zap.NewNop())
		}
	})
	runtime.ReadMemStats(&after)
	if used := after.TotalAlloc - before.TotalAlloc; used > uint64(8<<20+200*len(doc)) {
		c.Fail("loading a torrent file of %d bytes (%s) allocates %d bytes", len(doc), what, used)
	}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, _ error) error {
		if fi, err := os.Stat(p); err == nil && !fi.IsDir() && fi.Size() > 1<<30 {
			c.Report("loading %s makes a file of %d bytes", what, fi.Size())
		}
		return nil
	})
	return t, err, func() {
		if t != nil && err == nil {
			_ = t.Close()
		}
		clean()
	}
}

func judge(c *mon.Case, g geometry) {
	hashes := make([]byte, g.hashes)
	for i := range hashes {
		hashes[i] = byte(c.R.UintN(256))
	}
	t, err, done := load(c, g.doc([]byte("http://tracker.test/a"), hashes), g.String())
	defer done()
	ok, total, count := g.verdict()
	c.Eval(1)
	c.Distinct(g.String())
	if err != nil {
		c.Check(!ok || total.Sign() == 0, "consistent torrent is refused: %v (%s)", err, g)
		c.Count("refused", 1)
		return
	}
	if total.Sign() == 0 && g.single {
		return // nothing to download
	}
	c.Check(ok, "torrent whose sizes contradict each other is accepted with length %d and %d pieces (%s)", t.Length, t.PiecesNum, g)
	c.Count("accepted", 1)
	check(c, t, g, total, count, hashes)
	c.Sample("%s -> length %d, %d pieces", g, t.Length, t.PiecesNum)
}

func check(c *mon.Case, t *torrent.Torrent, g geometry, total *big.Int, count int64, hashes []byte) {
	if !total.IsInt64() || int64(t.Length) != total.Int64() {
		c.Fail("total length is %d, files add up to %s (%s)", t.Length, total, g)
	}
	if int64(t.PiecesNum) != count || len(t.Pieces) != t.PiecesNum {
		c.Fail("piece count is %d with %d hashes, has to be %d (%s)", t.PiecesNum, len(t.Pieces), count, g)
	}
	if int64(t.PieceLength) != g.pieceLen {
		c.Fail("piece length is %d (%s)", t.PieceLength, g)
	}
	if n := t.EmptyBitset().Len(); int64(n) != count {
		c.Fail("piece sets have room for %d pieces, torrent has %d (%s)", n, count, g)
	}
	for i := range t.Pieces {
		if want := hashes[20*i : 20*i+20]; !t.Pieces[i].CheckHash(want) || t.Pieces[i].Index() != i {
			c.Fail("hash %d of the torrent is %s, in the metainfo it is %x (%s)", i, t.Pieces[i], want, g)
		}
	}
}

// grid walks small sizes around all boundaries.
func grid(c *mon.Case) {
	var i int
	fmt.Sscanf(c.ID, "grid/%d", &i)
	pieceLen := int64(i%10) - 1 // -1..8
	total := int64(i/10%15) - 1 // -1..13
	off := i / 150              // 0..9
	for _, single := range []bool{true, false} {
		for files := 1; files <= 3; files++ {
			if single && files > 1 {
				continue
			}
			g := geometry{single: single, pieceLen: pieceLen}
			left := total
			for f := 1; f < files; f++ {
				l := int64(0)
				if left > 0 {
					l = int64(c.R.IntN(int(left) + 1))
				}
				g.lens = append(g.lens, l)
				left -= l
			}
			g.lens = append(g.lens, left)
			n := int64(0)
			if pieceLen > 0 && total > 0 {
				n = (total + pieceLen - 1) / pieceLen
			}
			g.hashes = max(0, int(20*n)+[]int{0, 20, -20, 1, -1, 19, -19, 40, 10, -40}[off])
			judge(c, g)
		}
	}
}

func randGeometry(r *rand.Rand) geometry {
	g := geometry{single: r.IntN(3) == 0, pieceLen: 1 + int64(r.IntN(100))}
	n := 1
	if !g.single {
		n = 1 + r.IntN(7)
	}
	total := int64(0)
	for ; n > 0; n-- {
		l := int64(r.IntN(200))
		switch r.IntN(6) {
		case 0:
			l = 0
		case 1:
			l = g.pieceLen
		case 2:
			l = g.pieceLen * int64(r.IntN(4))
		}
		if g.single && l == 0 {
			l = 1
		}
		g.lens = append(g.lens, l)
		total += l
	}
	g.hashes = int(20 * ((total + g.pieceLen - 1) / g.pieceLen))
	return g
}

func sizes(c *mon.Case) {
	r := c.R
	g := randGeometry(r)
	switch r.IntN(8) {
	case 0:
		g.hashes = max(0, g.hashes+20*(r.IntN(5)-2))
	case 1:
		g.hashes = max(0, g.hashes+r.IntN(41)-20)
	case 2:
		g.pieceLen += int64(r.IntN(5) - 2)
	case 3:
		i := r.IntN(len(g.lens))
		g.lens[i] = -g.lens[i]
	case 4:
		i := r.IntN(len(g.lens))
		g.lens[i] += int64(r.IntN(3)) - 1
	case 5: // negative and positive that add up
		if !g.single && len(g.lens) > 1 {
			d := int64(r.IntN(300))
			g.lens[0] += d
			g.lens[1] -= d
		}
	}
	judge(c, g)
}

func extreme(c *mon.Case) {
	r := c.R
	values := []int64{0, 1, 2, 19, 20, 21, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64/2 + 1, math.MaxInt64 / 2, math.MinInt64, math.MinInt64 + 1, -1, -20,
		math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MinInt32, 1 << 40, 1 << 62, -1 << 62, 1 << 53}
	pick := func() int64 {
		v := values[r.IntN(len(values))]
		if r.IntN(5) == 0 {
			v += int64(r.IntN(3) - 1)
		}
		return v
	}
	g := geometry{single: r.IntN(3) == 0, pieceLen: pick()}
	n := 1
	if !g.single {
		n = 1 + r.IntN(4)
	}
	for ; n > 0; n-- {
		g.lens = append(g.lens, pick())
	}
	_, total, count := g.verdict()
	switch {
	case count > 0 && count < 4000 && r.IntN(3) > 0:
		g.hashes = int(20 * count)
	case r.IntN(2) == 0:
		// what wrapping arithmetic would ask for
		var wrapped int64
		for _, l := range g.lens {
			wrapped += l
		}
		if g.pieceLen != 0 {
			if n := wrapped / g.pieceLen; n >= 0 && n < 4000 {
				g.hashes = int(20*n) + 20*r.IntN(2)
			}
		}
	default:
		g.hashes = 20 * r.IntN(5)
	}
	_ = total
	judge(c, g)
}

// hashes checks real content against the hashes in order.
func hashes(c *mon.Case) {
	r := c.R
	g := randGeometry(r)
	_, total, count := g.verdict()
	content := make([]byte, total.Int64())
	for i := range content {
		content[i] = byte(r.UintN(256))
	}
	var h []byte
	piece := func(i int64) []byte { return content[i*g.pieceLen : min((i+1)*g.pieceLen, int64(len(content)))] }
	for i := int64(0); i < count; i++ {
		s := sha1.Sum(piece(i))
		h = append(h, s[:]...)
	}
	t, err, done := load(c, g.doc([]byte("http://tracker.test/a"), h), g.String())
	defer done()
	if len(content) == 0 {
		return
	}
	c.Check(err == nil, "consistent torrent is refused: %v (%s)", err, g)
	check(c, t, g, total, count, h)
	for i := int64(0); i < count; i++ {
		c.Check(t.CheckPiece(piece(i), int(i)), "content of piece %d does not pass the check (%s)", i, g)
		if j := r.Int64N(count); !bytes.Equal(piece(i), piece(j)) {
			c.Check(!t.CheckPiece(piece(i), int(j)), "content of piece %d passes as piece %d (%s)", i, j, g)
		}
		c.Eval(1)
	}
	c.Distinct(g.String())
}

// many has more pieces than fit small counters.
func many(c *mon.Case) {
	r := c.R
	count := []int64{255, 256, 257, 32768, 65535, 65536, 65537, 70000 + r.Int64N(60000), 131073}[r.IntN(9)]
	g := geometry{single: r.IntN(2) == 0, pieceLen: []int64{1, 2, 16384, 1 << 20, 1<<20 + 1}[r.IntN(5)], hashes: int(count) * 20}
	total := (count-1)*g.pieceLen + 1 + r.Int64N(g.pieceLen)
	if g.single {
		g.lens = []int64{total}
	} else {
		first := r.Int64N(total)
		g.lens = []int64{first, total - first}
	}
	judge(c, g)
	g.hashes += []int{-20, 20, 1, -1, 0, 20 * 65536}[r.IntN(6)]
	judge(c, g)
}

func trackers(c *mon.Case) {
	r := c.R
	pool := []string{"http://a.test/announce", "http://a.test/announce2", "http://A.test/announce", "http://b.test/announce", "udp://c.test:80", "udp://c.test:81", "https://d.test", "udp://c.test:80/announce", "wss://e.test", "http://a.test/announce?x=1", "http://a.test/announce/"}
	url := func() string {
		if r.IntN(3) == 0 {
			return fmt.Sprintf("http://t%d.test/announce", r.IntN(200))
		}
		if r.IntN(8) == 0 {
			return "x" + string(ref.RandBytes(r, 20))
		}
		return pool[r.IntN(len(pool))]
	}
	want := map[string]bool{}
	use := func() *ref.Val {
		u := url()
		want[u] = true
		return ref.S(u)
	}
	h := sha1.Sum([]byte("x"))
	doc := ref.D("announce", use())
	if r.IntN(4) > 0 {
		l := ref.L()
		tiers, each := 5, 4
		switch r.IntN(6) {
		case 0:
			tiers = 60
		case 1:
			each = 60
		}
		for n := r.IntN(tiers); n > 0; n-- {
			tier := ref.L()
			for k := r.IntN(each); k > 0; k-- {
				tier.L = append(tier.L, use())
			}
			l.L = append(l.L, tier)
		}
		doc.Put("announce-list", l)
	}
	doc.Put("info", ref.D("length", ref.I(1), "name", ref.S("t"), "piece length", ref.I(5), "pieces", ref.B(h[:])))
	if r.IntN(3) == 0 {
		l := ref.L()
		for n := r.IntN([]int{4, 4, 4, 40}[r.IntN(4)]); n > 0; n-- {
			l.L = append(l.L, use())
		}
		doc.Put("url-list", l)
	}
	t, err, done := load(c, doc.Encode(), "torrent with trackers")
	defer done()
	c.Check(err == nil, "torrent is refused: %v (%q)", err, doc.Encode())
	var missing, extra []string
	for u := range want {
		if !t.Trackers.Contains(u) {
			missing = append(missing, u)
		}
	}
	for u := range t.Trackers {
		if !want[u] {
			extra = append(extra, u)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	c.Check(len(missing)+len(extra) == 0, "trackers are wrong: missing %q, made up %q (%q)", missing, extra, doc.Encode())
	c.Eval(1)
	c.Count("tracker sets compared", 1)
	c.Distinct(fmt.Sprint(len(want)), doc.Encode())
}
