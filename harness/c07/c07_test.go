package c07

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C07",
		mon.Family{Name: "grid", Quick: len(grid()), Thorough: len(grid()), Fn: gridCase},
		mon.Family{Name: "random", Quick: 12500, Thorough: 125000, Fn: func(c *mon.Case) {
			store(c, swarm.Gen(c.R, swarm.Shape{MaxPieces: 14, MaxPieceLen: 300}), true)
		}},
		mon.Family{Name: "multiblock", Quick: 300, Thorough: 3000, Fn: func(c *mon.Case) {
			store(c, swarm.Gen(c.R, swarm.Shape{MaxPieces: 4, Big: true}), true)
		}},
		mon.Family{Name: "outside", Quick: 6000, Thorough: 60000, Fn: outside},
		mon.Family{Name: "huge", Quick: 300, Thorough: 3000, Fn: huge},
	)
}

var url = []string{"http://tracker.test/announce"}

type layout struct {
	files []int
	piece int
}

// grid is every layout of up to four files and seven bytes.
func grid() (g []layout) {
	var rec func(files []int, left int)
	rec = func(files []int, left int) {
		if len(files) > 0 {
			total := 0
			for _, f := range files {
				total += f
			}
			if total > 0 {
				for _, p := range []int{1, 2, 3, 5, 8} {
					if p <= total+1 {
						g = append(g, layout{append([]int(nil), files...), p})
					}
				}
			}
		}
		if len(files) == 4 {
			return
		}
		for l := 0; l <= left; l++ {
			rec(append(files[:len(files):len(files)], l), left-l)
		}
	}
	rec(nil, 7)
	return g
}

func gridCase(c *mon.Case) {
	var i int
	fmt.Sscanf(c.ID, "grid/%d", &i)
	l := grid()[i]
	var files []swarm.File
	for i, n := range l.files {
		files = append(files, swarm.File{Path: []string{fmt.Sprintf("f%d", i)}, Length: n})
	}
	store(c, swarm.NewSpec(c.R, "g", false, files, l.piece, url, nil), false)
}

func msg(c *mon.Case, index, begin uint32, data []byte) (m *util.PeerMessage) {
	c.Call("decode piece message", func() { m = util.NewPeerMessage(ref.PieceFrame(index, begin, data).Body()) })
	return m
}

// write stores messages and returns when all are handled.
func write(c *mon.Case, t *torrent.Torrent, st *stats.Stats, msgs ...*util.PeerMessage) {
	ch := make(chan *util.PeerMessage, len(msgs))
	for _, m := range msgs {
		ch <- m
	}
	close(ch)
	c.Call("store pieces", func() { t.WritePiece(ch, st) })
}

// disk reads all files; their lengths may not be above the declared ones.
func disk(c *mon.Case, spec *swarm.Spec, dir string) []byte {
	img, err := spec.Disk(dir)
	if err != nil {
		c.Fail("%v\n%s", err, spec)
	}
	return img
}

func same(c *mon.Case, spec *swarm.Spec, got, want []byte, when string) {
	if bytes.Equal(got, want) {
		return
	}
	for i := range want {
		if got[i] != want[i] {
			c.Fail("%s: torrent byte %d (piece %d) on disk is %#x, has to be %#x\n%s", when, i, i/spec.PieceLen, got[i], want[i], spec)
		}
	}
}

func store(c *mon.Case, spec *swarm.Spec, repeat bool) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	w := &swarm.World{C: c, Spec: spec, Dir: dir}
	older := r.IntN(4) == 0
	if older {
		if err := spec.Prefill(r, dir); err != nil {
			c.Harness("prefill: %v", err)
		}
	}
	w.Load()
	t := w.T
	defer t.Close()
	st := stats.NewStats(uint64(spec.Length))
	want := make([]byte, spec.Length)
	order := r.Perm(spec.NumPieces())
	batch := 1 + r.IntN(3)
	for len(order) > 0 {
		n := min(batch, len(order))
		var msgs []*util.PeerMessage
		for _, i := range order[:n] {
			msgs = append(msgs, msg(c, uint32(i), 0, spec.Piece(i)))
			if repeat && r.IntN(4) == 0 {
				msgs = append(msgs, msg(c, uint32(i), 0, spec.Piece(i)))
			}
			copy(want[i*spec.PieceLen:], spec.Piece(i))
		}
		when := fmt.Sprintf("after storing pieces %v", order[:n])
		order = order[n:]
		write(c, t, st, msgs...)
		c.Eval(1)
		if !older { // else only the final content counts
			same(c, spec, disk(c, spec, dir), want, when)
			c.Count("disk images compared", 1)
		}
		c.Count("pieces stored", len(msgs))
		if t.Done() != (len(order) == 0) {
			c.Fail("%s, with %d pieces missing, the torrent says done=%v\n%s", when, len(order), t.Done(), spec)
		}
	}
	if err := spec.Complete(dir); err != nil {
		c.Fail("all pieces are stored: %v\n%s", err, spec)
	}
	c.Distinct(spec.String())
	c.Sample("%s, %d pieces per call", spec, batch)
}

// outside mixes in data that does not fit its piece.
func outside(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{MaxPieces: 9, MaxPieceLen: 60, Trackers: url})
	dir, clean := c.Dir()
	defer clean()
	w := &swarm.World{C: c, Spec: spec, Dir: dir}
	w.Load()
	t := w.T
	defer t.Close()
	st := stats.NewStats(uint64(spec.Length))
	n := spec.NumPieces()
	before := make([]byte, spec.Length)
	order := r.Perm(n)
	for _, i := range order {
		for k := r.IntN(3); k > 0; k-- {
			idx, off, size := uint32(i), uint32(0), spec.PieceSize(i)
			switch r.IntN(6) {
			case 0:
				idx = uint32(n + r.IntN(3))
			case 1:
				idx = r.Uint32() | 1<<31
			case 2:
				off = uint32(1 + r.IntN(2*spec.PieceLen))
				if int(off) < size {
					size = size - int(off) + 1 + r.IntN(5)
				}
			case 3:
				size += 1 + r.IntN(2*spec.PieceLen)
			case 4:
				off = 0xffffffff - uint32(r.IntN(spec.PieceLen+1))
			case 5: // a multiple of the piece length away
				idx, off = uint32(r.IntN(n)), uint32(spec.PieceLen*(1+r.IntN(n)))
			}
			junk := bytes.Repeat([]byte{0xEE}, size)
			write(c, t, st, msg(c, idx, off, junk))
			after := disk(c, spec, dir)
			lo, hi := 0, 0
			if int(idx) < n {
				lo = int(idx) * spec.PieceLen
				hi = lo + spec.PieceSize(int(idx))
			}
			for p := range after {
				if after[p] != before[p] && (p < lo || p >= hi) {
					c.Fail("storing %d bytes at offset %d of piece %d changed torrent byte %d, outside of the piece\n%s", size, off, idx, p, spec)
				}
			}
			before = after
			c.Eval(1)
			c.Count("misplaced blocks", 1)
		}
		write(c, t, st, msg(c, uint32(i), 0, spec.Piece(i)))
		copy(before[i*spec.PieceLen:], spec.Piece(i))
		same(c, spec, disk(c, spec, dir), before, fmt.Sprintf("after storing piece %d among misplaced data", i))
		c.Count("pieces stored", 1)
	}
	c.Check(t.Done(), "all pieces are stored, the torrent is not complete\n%s", spec)
	c.Check(spec.Complete(dir) == nil, "all pieces are stored: %v\n%s", spec.Complete(dir), spec)
	c.Distinct(spec.String())
}

// huge stores a few pieces of torrents too big for 32 bit positions.
func huge(c *mon.Case) {
	r := c.R
	pieceLen := []int{1 << 20, 1<<20 + 4096, 1 << 18, 3 << 19}[r.IntN(4)]
	var lens []int
	single := r.IntN(4) == 0
	if single {
		lens = []int{5<<30 + r.IntN(1<<20)}
	} else {
		for n := 2 + r.IntN(3); n > 0; n-- {
			lens = append(lens, []int{1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 + 1, 1 + r.IntN(1<<20), r.IntN(3 << 30)}[r.IntN(6)])
		}
		lens = append(lens, 1+r.IntN(1<<21), 1<<32+r.IntN(1<<20))
	}
	total := 0
	for _, l := range lens {
		total += l
	}
	n := (total + pieceLen - 1) / pieceLen
	info := ref.D()
	if single {
		info.Put("length", ref.I(int64(total)))
	} else {
		fl := ref.L()
		for i, l := range lens {
			fl.L = append(fl.L, ref.D("length", ref.I(int64(l)), "path", ref.L(ref.S(fmt.Sprintf("f%d", i)))))
		}
		info.Put("files", fl)
	}
	info.Put("name", ref.S("huge"))
	info.Put("piece length", ref.I(int64(pieceLen)))
	h := sha1.Sum([]byte("x"))
	info.Put("pieces", ref.B(bytes.Repeat(h[:], n)))
	doc := ref.D("announce", ref.S(url[0]), "info", info).Encode()
	var m bencode.Metainfo
	if err := bencode.Unmarshal(doc, &m); err != nil {
		c.Fail("big torrent is refused: %v", err)
	}
	dir, clean := c.Dir()
	defer clean()
	t, err := torrent.New(&m, dir, zap.NewNop())
	if err != nil {
		c.Fail("big torrent of files %v is refused: %v", lens, err)
	}
	defer t.Close()
	st := stats.NewStats(uint64(total))
	path := func(i int) string {
		if single {
			return dir + "/huge"
		}
		return fmt.Sprintf("%s/huge/f%d", dir, i)
	}
	// pieces around file borders and at the end
	pick := map[int]bool{0: true, n - 1: true}
	pos := 0
	for _, l := range lens {
		pos += l
		if pos < total && l > 0 {
			pick[pos/pieceLen] = true
		}
	}
	pick[r.IntN(n)] = true
	pick[min(n-1, (1<<32)/pieceLen)] = true
	data := make([]byte, pieceLen)
	for i := range data {
		data[i] = byte(i*7+i>>8) | 1
	}
	for i := range pick {
		size := min(pieceLen, total-i*pieceLen)
		piece := data[:size]
		piece[0], piece[size-1] = byte(i)|1, byte(i>>3)|1
		write(c, t, st, msg(c, uint32(i), 0, piece))
		// read it back by the layout
		got := make([]byte, 0, size)
		abs, left := i*pieceLen, size
		for f, l := range lens {
			if abs >= l {
				abs -= l
				continue
			}
			k := min(left, l-abs)
			buf := make([]byte, k)
			fd, err := os.Open(path(f))
			if err != nil {
				c.Fail("%v", err)
			}
			m, _ := fd.ReadAt(buf, int64(abs))
			fd.Close()
			got = append(got, buf[:m]...)
			if m < k {
				break
			}
			abs, left = 0, left-k
			if left == 0 {
				break
			}
		}
		if !bytes.Equal(got, piece) {
			c.Fail("piece %d (torrent byte %d) of files %v, piece length %d, is not where the layout puts it", i, i*pieceLen, lens, pieceLen)
		}
		c.Eval(1)
	}
	for f, l := range lens {
		fi, err := os.Stat(path(f))
		if err != nil {
			c.Fail("%v", err)
		}
		if fi.Size() > int64(l) {
			c.Fail("file %d has %d bytes, declared are %d", f, fi.Size(), l)
		}
	}
	// nothing else may be written: neighbours, places 4 GiB and 2 GiB away, and others
	look := map[int]bool{}
	for i := range pick {
		for _, j := range []int{i - 1, i + 1, i - (1<<32)/pieceLen, i - (1<<31)/pieceLen, i - (1<<32)/pieceLen - 1, i - (1<<31)/pieceLen - 1} {
			look[j] = true
		}
	}
	for k := 0; k < 30; k++ {
		look[r.IntN(n)] = true
	}
	for j := range look {
		if j < 0 || j >= n || pick[j] {
			continue
		}
		for _, at := range []int{0, min(pieceLen, total-j*pieceLen) - 1} {
			abs := j*pieceLen + at
			for f, l := range lens {
				if abs >= l {
					abs -= l
					continue
				}
				buf := make([]byte, 1)
				if fd, err := os.Open(path(f)); err == nil {
					_, _ = fd.ReadAt(buf, int64(abs))
					fd.Close()
				}
				if buf[0] != 0 {
					c.Fail("byte of piece %d, which was never stored, is %#x; stored are %v of files %v, piece length %d", j, buf[0], pick, lens, pieceLen)
				}
				break
			}
		}
	}
	c.Count("pieces stored", len(pick))
	c.Count("pieces above 4 GiB torrents checked", len(pick))
	c.Distinct(fmt.Sprint(lens, pieceLen))
	c.Sample("files %s piece length %d, pieces %v", strings.Trim(fmt.Sprint(lens), "[]"), pieceLen, len(pick))
}
