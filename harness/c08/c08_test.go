package c08

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"os/signal"
	"strconv"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"go.uber.org/zap"

	"verif/internal/mon"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C08",
		mon.Family{Name: "liars", Quick: 1600, Thorough: 16000, Fn: func(c *mon.Case) { session(c, opts{}) }},
		mon.Family{Name: "mixed", Quick: 1600, Thorough: 16000, Fn: func(c *mon.Case) { session(c, opts{honest: true}) }},
		mon.Family{Name: "multiblock", Quick: 480, Thorough: 4800, Fn: func(c *mon.Case) { session(c, opts{honest: c.R.IntN(2) == 0, big: true}) }},
		mon.Family{Name: "outside", Quick: 480, Thorough: 4800, Fn: func(c *mon.Case) { session(c, opts{outside: true, honest: c.R.IntN(2) == 0}) }},
		mon.Family{Name: "diskfault", Quick: 480, Thorough: 4800, Fn: func(c *mon.Case) { session(c, opts{honest: true, fault: true, big: c.R.IntN(6) == 0}) }},
		mon.Family{Name: "hashcheck", Quick: 800, Thorough: 8000, Fn: hashCheck},
	)
}

type opts struct{ honest, big, outside, fault bool }

var url = []string{"http://tracker.test/announce"}

// watch checks the disk: every byte is either not written or right, and the
// torrent is complete only when everything is there.
func watch(c *mon.Case, w *swarm.World, downloaded string, when string) (stored int) {
	done := w.T.Done()
	img, err := w.Spec.Disk(w.Dir)
	if err != nil {
		c.Fail("%s: %v\n%s", when, err, w.Spec)
	}
	for i, b := range img {
		if b != 0 && b != w.Spec.Content[i] {
			c.Fail("%s: byte %d on disk (piece %d) is %#x, content has %#x: data that was never verified is stored\n%s", when, i, i/w.Spec.PieceLen, b, w.Spec.Content[i], w.Spec)
		}
	}
	all := true
	for i, on := range w.Spec.OnDisk(img) {
		if on {
			stored += w.Spec.PieceSize(i)
		} else {
			all = false
		}
	}
	if done && !all {
		c.Fail("%s: torrent is reported complete, on disk are pieces %v\n%s", when, w.Spec.OnDisk(img), w.Spec)
	}
	if downloaded != "" {
		d, err := strconv.ParseUint(downloaded, 10, 64)
		if err != nil || d > uint64(stored) {
			c.Fail("%s: %s bytes are reported as downloaded, verified pieces on disk have %d\n%s", when, downloaded, stored, w.Spec)
		}
	}
	c.Count("disk images checked", 1)
	return stored
}

func session(c *mon.Case, o opts) {
	r := c.R
	sh := swarm.Shape{Trackers: url, Big: o.big, MaxPieces: 10}
	if o.big {
		sh.MaxPieces = 3
	}
	spec := swarm.Gen(r, sh)
	n := spec.NumPieces()
	lies := []int{swarm.Corrupt, swarm.WrongIndex, swarm.WrongOffset, swarm.ShortData, swarm.LongData, swarm.EmptyData, swarm.SwapData}
	mixed := append([]int{swarm.Good, swarm.Duplicate, swarm.ChokeThenGood, swarm.Stall, swarm.CutFrame}, lies...)
	var scripts []*swarm.Script
	for i := 0; i < 1+r.IntN(4); i++ {
		s := swarm.Hostile(r, swarm.Addr(i+1), swarm.All(n))
		s.HS, s.Refuse, s.Blackhole, s.Later, s.Unchoke = swarm.HSGood, nil, false, nil, 0
		kinds := lies
		if o.honest || o.big {
			kinds = mixed
		}
		k := kinds[r.IntN(len(kinds))]
		rate := 1 + r.IntN(4)
		s.Answers = func(_ int, r *rand.Rand) int {
			if o.big && r.IntN(rate) != 0 {
				return swarm.Good
			}
			if rate > 2 {
				return kinds[r.IntN(len(kinds))]
			}
			return k
		}
		if o.outside {
			s.Noise, s.NoiseEvery = []int{swarm.NPieceOutside, swarm.NHaveOutOfRange, swarm.NUnsolicitedBad, swarm.NShortPiece, swarm.NBitfieldShort}, time.Duration(5+r.IntN(300))*time.Millisecond
			s.Delay = time.Duration(r.IntN(900)) * time.Millisecond
		}
		scripts = append(scripts, s)
	}
	if o.honest {
		scripts = append(scripts, swarm.Honest(r, swarm.Addr(20), swarm.RandHave(r, n)))
	}
	pure := !o.honest && !o.big
	for _, s := range scripts {
		for _, k := range s.Noise {
			if k == swarm.NUnsolicitedGood || k == swarm.NPieceOutside {
				pure = false // may be a right answer by accident
			}
		}
	}
	limit := time.Duration(5+r.IntN(90)) * time.Second
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var addrs []netip.AddrPort
		for _, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		c.Logf("%s", spec)
		iv := swarm.Int(3 + r.IntN(20))
		seen := 0
		w.AddTracker(&swarm.Tracker{URL: url[0], Answer: func(n int, a *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: iv}
		}})
		w.Load()
		if o.fault {
			// files can not grow past the limit: writes fail, wholly or in part
			longest := 0
			for _, f := range spec.Files {
				longest = max(longest, f.Length)
			}
			undo := limitFiles(c, r.IntN(longest))
			defer undo()
		}
		w.StartLoaded(50, 6881)
		for end := time.Now().Add(limit); time.Now().Before(end); {
			if w.Wait(time.Duration(100+r.IntN(900)) * time.Millisecond) {
				break
			}
			synctest.Wait()
			watch(c, w, "", fmt.Sprintf("after %s", w.Since()))
			// all announces up to now were made with totals not above this disk
			as := w.Trackers[0].Seen()
			for ; seen < len(as); seen++ {
				watch(c, w, as[seen].Downloaded, fmt.Sprintf("announce at %s", as[seen].At.Sub(w.Began())))
			}
		}
		w.Finish()
		stored := watch(c, w, "", "at the end")
		if o.fault && stored < spec.Length {
			c.Count("downloads with failed writes", 1)
			c.Distinct("fault", spec.String(), stored)
		}
		lied, sent := 0, 0
		for _, p := range w.Peers {
			a, kinds, noise := p.Stats()
			sent += a
			c.Count("blocks answered", a)
			c.Count("noise frames", noise)
			for _, k := range lies {
				lied += kinds[k]
				if kinds[k] > 0 {
					c.Count("answers "+swarm.AnswerName(k), kinds[k])
				}
			}
		}
		if pure && n > 1 && !sameBlocks(spec) && stored > 0 {
			c.Fail("nobody sent verified data, yet %d bytes of pieces are stored\n%s", stored, spec)
		}
		c.Eval(1)
		c.Count("bytes of verified pieces stored", stored)
		if lied > 0 {
			c.Distinct(spec.String(), lied, sent, stored)
			c.Sample("%s: %d peers, %d of %d answers were lies, %d bytes stored", spec, len(scripts), lied, sent, stored)
		}
	})
}

// limitFiles makes the system refuse to write files past a size.
func limitFiles(c *mon.Case, size int) (undo func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		c.Harness("getrlimit: %v", err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: old.Max}); err != nil {
		c.Harness("setrlimit: %v", err)
	}
	c.Logf("files are limited to %d bytes", size)
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			c.Harness("setrlimit: %v", err)
		}
	}
}

// sameBlocks tells if two pieces have the same content, so that a mislabelled
// one may be right.
func sameBlocks(s *swarm.Spec) bool {
	if s.PieceLen < 16 {
		return true
	}
	last := s.NumPieces() - 1
	return s.PieceSize(last) < 16
}

// hashCheck asks the torrent directly.
func hashCheck(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{Trackers: url, MaxPieces: 20})
	dir, clean := c.Dir()
	defer clean()
	var ok bool
	w := &swarm.World{C: c, Spec: spec, Dir: dir}
	w.Load()
	defer w.T.Close()
	ask := func(data []byte, i int) bool {
		c.Call(fmt.Sprintf("check of piece %d with %d bytes", i, len(data)), func() { ok = w.T.CheckPiece(data, i) })
		c.Eval(1)
		return ok
	}
	n := spec.NumPieces()
	for i := 0; i < n; i++ {
		p := spec.Piece(i)
		c.Check(ask(p, i), "right content of piece %d is refused\n%s", i, spec)
		bad := append([]byte(nil), p...)
		bad[r.IntN(len(bad))] ^= 1 << r.IntN(8)
		c.Check(!ask(bad, i), "piece %d with a flipped bit is accepted\n%s", i, spec)
		c.Check(!ask(p[:len(p)-1], i), "piece %d without its last byte is accepted\n%s", i, spec)
		c.Check(!ask(append(bytes.Clone(p), 0), i), "piece %d with an extra byte is accepted\n%s", i, spec)
		c.Check(!ask(nil, i), "empty data for piece %d is accepted\n%s", i, spec)
		if o := r.IntN(n); !bytes.Equal(spec.Piece(o), p) {
			c.Check(!ask(spec.Piece(o), i), "piece %d is accepted as piece %d\n%s", o, i, spec)
		}
	}
	for _, i := range []int{-1, n, n + 1, -n, 1 << 31, -1 << 31, 1 << 62} {
		c.Check(!ask(spec.Piece(0), i), "index %d outside of the torrent (%d pieces) is accepted", i, n)
	}
	c.Check(!w.T.Done(), "torrent is complete although nothing was stored")
	c.Distinct(spec.String())
	nearHash(c)
}

// nearHash asks for a hash that differs from the data's in one place only.
func nearHash(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	const n = 21
	m := &bencode.Metainfo{Announce: url[0]}
	m.Info.Name, m.Info.PieceLength, m.Info.Length = "near", 8, n*8
	var pieces [][]byte
	for i := 0; i < n; i++ {
		p := make([]byte, 8)
		for j := range p {
			p[j] = byte(r.UintN(256))
		}
		pieces = append(pieces, p)
		h := sha1.Sum(p)
		if i < 20 {
			h[i] ^= 1 << r.IntN(8)
		}
		m.Info.Pieces += string(h[:])
	}
	t, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		c.Fail("valid torrent is refused: %v", err)
	}
	defer t.Close()
	for i, p := range pieces {
		var ok bool
		c.Call("check of a piece", func() { ok = t.CheckPiece(p, i) })
		c.Check(ok == (i == 20), "data whose hash differs from the piece's hash only in byte %d: accepted is %v", i, ok)
		c.Eval(1)
	}
}
