package c19

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"net/netip"
	"regexp"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anivanovic/gotit/pkg/stats"

	"verif/internal/mon"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C19",
		mon.Family{Name: "sums", Quick: 4800, Thorough: 48000, Fn: sums},
		mon.Family{Name: "values", Quick: 6000, Thorough: 60000, Fn: values},
		mon.Family{Name: "readers", Quick: 800, Thorough: 8000, Fn: readers},
		mon.Family{Name: "download", Quick: 2800, Thorough: 28000, Fn: func(c *mon.Case) { world(c, false) }},
		mon.Family{Name: "multiblock", Quick: 320, Thorough: 3200, Fn: func(c *mon.Case) { world(c, true) }},
	)
}

func size(r *rand.Rand) uint64 {
	return []uint64{0, 1, 2, 99, 100, 101, 1000, 1 << 20, 1 << 32, 1 << 40, math.MaxInt64, r.Uint64() >> 1, r.Uint64() >> uint(1+r.IntN(63))}[r.IntN(13)]
}

func checkAll(c *mon.Case, s *stats.Stats, sz, down, up uint64, what string) {
	if got := s.Download(); got != down {
		c.Fail("%s: size %d: downloaded total is %d, %d was added", what, sz, got, down)
	}
	if got := s.Upload(); got != up {
		c.Fail("%s: size %d: uploaded total is %d, %d was added", what, sz, got, up)
	}
	left := uint64(0)
	if down < sz {
		left = sz - down
	}
	if got := s.Left(); got != left {
		c.Fail("%s: size %d, downloaded %d: left is %d, want %d", what, sz, down, got, left)
	}
	if p := s.PercentCompleted(); p < 0 || p > 100 {
		c.Fail("%s: size %d, downloaded %d: %d percent", what, sz, down, p)
	}
	_ = s.Speed()
}

// sums adds from many goroutines.
func sums(c *mon.Case) {
	r := c.R
	sz := size(r)
	s := stats.NewStats(sz)
	workers := 1 + r.IntN(8)
	var down, up uint64
	var peers, trackers int
	var wg sync.WaitGroup
	start := make(chan struct{})
	n := 1 + r.IntN(400)
	for w := 0; w < workers; w++ {
		d, u := r.Uint64()>>uint(20+r.IntN(44)), r.Uint64()>>uint(20+r.IntN(44))
		add, rem := r.IntN(2) == 0, r.IntN(2) == 0
		down += d * uint64(n)
		up += u * uint64(n)
		if add {
			peers += n
			trackers += n
			if rem {
				peers -= n
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < n; i++ {
				s.AddDownload(d)
				s.AddUpload(u)
				if add {
					s.AddPeer()
					s.AddTracker()
					if rem {
						s.RemovePeer()
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	checkAll(c, s, sz, down, up, fmt.Sprintf("%d goroutines, %d times each", workers, n))
	if s.PeerNum() != uint64(peers) || s.TrackerNum() != uint64(trackers) {
		c.Fail("%d peers and %d trackers are counted, %d and %d were added", s.PeerNum(), s.TrackerNum(), peers, trackers)
	}
	c.Eval(1)
	c.Count("concurrent additions", workers*n*2)
	c.Distinct(sz, down, up, workers)
}

// values walks through totals and prints every one.
func values(c *mon.Case) {
	r := c.R
	sz := size(r)
	var out bytes.Buffer
	swarm.Quiet(&out)
	s := stats.NewStats(sz)
	var pp *stats.ProgressPrinter
	c.Call("new printer", func() { pp = stats.NewProgressPrinter(s) })
	var down, up uint64
	for i := 0; i < 12; i++ {
		c.Call("print progress", func() { pp.Print() })
		checkAll(c, s, sz, down, up, "sequence")
		c.Eval(1)
		c.Distinct(sz, down)
		var d uint64
		left := uint64(0)
		if down < sz {
			left = sz - down
		}
		switch r.IntN(8) {
		case 0:
			d = 0
		case 1:
			d = 1
		case 2:
			d = left // exactly complete
		case 3:
			if left > 0 {
				d = left - 1
			}
		case 4:
			d = left + 1
		case 5:
			d = sz / 200
		case 6:
			if left > 1 {
				d = r.Uint64N(left)
			}
		case 7:
			d = r.Uint64() >> 8
		}
		if down+d < down || down+d > math.MaxUint64/2 {
			d = 0
		}
		u := r.Uint64() >> uint(8+r.IntN(50))
		c.Call("add", func() { s.AddDownload(d); s.AddUpload(u) })
		down += d
		up += u
	}
	pp.Close()
	progress(c, out.Bytes(), fmt.Sprintf("size %d", sz))
	c.Sample("size %d, downloaded %d, %d percent, left %d", sz, down, s.PercentCompleted(), s.Left())
}

var percent = regexp.MustCompile(`(-?\d+)%`)

func progress(c *mon.Case, out []byte, what string) {
	m := percent.FindAllSubmatch(out, -1)
	for _, x := range m {
		p, err := strconv.Atoi(string(x[1]))
		if err != nil || p < 0 || p > 100 {
			c.Fail("%s: progress line says %s", what, x[0])
		}
	}
	c.Count("progress lines read", len(m))
}

// readers look while others add.
func readers(c *mon.Case) {
	r := c.R
	sz := 1 + uint64(r.IntN(100000))
	s := stats.NewStats(sz)
	var stop atomic.Bool
	var wg sync.WaitGroup
	var reads atomic.Int64
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var lastD uint64
			lastL := sz
			for !stop.Load() {
				d, l, p := s.Download(), s.Left(), s.PercentCompleted()
				if d < lastD {
					c.Report("downloaded total goes back from %d to %d", lastD, d)
					return
				}
				if l > lastL {
					c.Report("left goes up from %d to %d (size %d)", lastL, l, sz)
					return
				}
				if p < 0 || p > 100 {
					c.Report("%d percent (size %d, downloaded %d)", p, sz, d)
					return
				}
				lastD, lastL = d, l
				reads.Add(1)
			}
		}()
	}
	var adders sync.WaitGroup
	step := 1 + uint64(r.IntN(5))
	for i := 0; i < 3; i++ {
		adders.Add(1)
		go func() {
			defer adders.Done()
			for k := uint64(0); k < sz/2+10 && k < 30000; k++ {
				s.AddDownload(step)
			}
		}()
	}
	adders.Wait()
	stop.Store(true)
	wg.Wait()
	c.Eval(1)
	c.Count("observations while adding", int(reads.Load()))
	c.Distinct(sz, step)
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) Bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return bytes.Clone(s.b.Bytes())
}

type tick struct {
	at     time.Time
	stored uint64
}

// world compares the totals of every announce with what is on disk before and
// after it.
func world(c *mon.Case, big bool) {
	r := c.R
	urls := []string{"http://a.test/announce", "udp://b.test:80"}[:1+r.IntN(2)]
	sh := swarm.Shape{Trackers: urls, MaxPieces: 14}
	if big {
		sh = swarm.Shape{Trackers: urls, MaxPieces: 5, Big: true}
	}
	spec := swarm.Gen(r, sh)
	np := spec.NumPieces()
	gone := -1 // a piece nobody has keeps the download going
	if r.IntN(3) > 0 {
		gone = r.IntN(np)
	}
	var scripts []*swarm.Script
	for i := 0; i < 1+r.IntN(5); i++ {
		have := swarm.RandHave(r, np)
		if i == 0 {
			have = swarm.All(np)
		}
		if gone >= 0 {
			have[gone] = false
		}
		var s *swarm.Script
		if i == 0 || r.IntN(2) == 0 {
			s = swarm.Honest(r, swarm.Addr(i+1), have)
		} else {
			s = swarm.Hostile(r, swarm.Addr(i+1), have)
		}
		if r.IntN(2) == 0 {
			s.Delay = time.Duration(r.IntN(500)) * time.Millisecond
		}
		scripts = append(scripts, s)
	}
	horizon := time.Duration(8+r.IntN(40)) * time.Second
	step := time.Duration(211+r.IntN(400)) * time.Millisecond
	extraAt := -1
	var extraD, extraU uint64
	if r.IntN(4) == 0 {
		extraAt = r.IntN(20)
		extraD, extraU = uint64(r.IntN(3))*uint64(r.IntN(2*spec.Length+2)), r.Uint64()>>uint(1+r.IntN(60))
	}
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		out := &syncBuf{}
		swarm.Quiet(out)
		var addrs []netip.AddrPort
		for i, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, swarm.Addr(i+1))
			c.Logf("%s", s.Describe())
		}
		for _, u := range urls {
			iv := 1 + r.IntN(2)
			fails := make([]bool, 64) // a failed announce is repeated with the totals of its moment
			for i, rate := 0, r.IntN(4); i < len(fails); i++ {
				fails[i] = i > 0 && r.IntN(4) < rate
			}
			kind := r.IntN(3)
			w.AddTracker(&swarm.Tracker{URL: u, Answer: func(n int, _ *swarm.Announce) swarm.Reply {
				if fails[n%len(fails)] {
					return []swarm.Reply{{Err: true}, {Failure: "not now"}, {Status: 503, Failure: "busy"}}[kind]
				}
				return swarm.Reply{Peers: addrs, Interval: swarm.Int(iv)}
			}})
		}
		w.Start(8, 6881)
		size := uint64(spec.Length)
		stored := func() uint64 {
			synctest.Wait()
			img, err := spec.Disk(dir)
			if err != nil {
				c.Fail("%v", err)
			}
			var n uint64
			for i, on := range spec.OnDisk(img) {
				if on {
					n += uint64(spec.PieceSize(i))
				}
			}
			return n
		}
		var added []tick // extra totals given from outside
		ticks := []tick{{time.Now(), 0}}
		n := 0
		for time.Since(w.Began()) < horizon {
			if w.Wait(step + time.Duration(n%7)*time.Microsecond + 333) {
				break
			}
			st := stored()
			ticks = append(ticks, tick{time.Now(), st})
			if n == extraAt {
				w.M.UpdateStatus(extraD, extraU)
				added = append(added, tick{time.Now(), extraD})
			}
			n++
		}
		fin := false
		select {
		case <-w.Done():
			fin = true
		default:
		}
		if !fin {
			w.Cancel()
			w.Wait(10 * time.Second)
		}
		w.M.Stop()
		ticks = append(ticks, tick{time.Now().Add(time.Hour), stored()})
		judged, exact := 0, 0
		for _, t := range w.Trackers {
			for _, a := range t.Seen() {
				d, e1 := strconv.ParseUint(a.Downloaded, 10, 64)
				l, e2 := strconv.ParseUint(a.Left, 10, 64)
				u, e3 := strconv.ParseUint(a.Uploaded, 10, 64)
				if e1 != nil || e2 != nil || e3 != nil {
					c.Fail("%s is told downloaded %q, left %q, uploaded %q", t.URL, a.Downloaded, a.Left, a.Uploaded)
				}
				// an announce is made up at most a second before it is seen
				lo, hi := uint64(0), ticks[len(ticks)-1].stored
				for i, k := range ticks {
					if k.at.Before(a.At.Add(-time.Second)) {
						lo = ticks[i].stored
					}
				}
				for i := len(ticks) - 1; i >= 0 && ticks[i].at.After(a.At); i-- {
					hi = ticks[i].stored
				}
				exLo, exHi, upLo, upHi := uint64(0), uint64(0), uint64(0), uint64(0)
				for _, x := range added {
					if x.at.Before(a.At.Add(-time.Second)) {
						exLo, upLo = extraD, extraU
					}
					if !x.at.After(a.At) {
						exHi, upHi = extraD, extraU
					}
				}
				lo, hi = lo+exLo, hi+exHi
				what := fmt.Sprintf("announce to %s %s after the start: downloaded %d, left %d, uploaded %d (size %d, on disk before %d, after %d)\n%s", t.URL, a.At.Sub(w.Began()), d, l, u, size, lo, hi, spec)
				if d < lo || d > hi {
					c.Fail("downloaded total is wrong: %s", what)
				}
				left := func(d uint64) uint64 {
					if d > size {
						return 0
					}
					return size - d
				}
				if l > left(lo) || l < left(hi) {
					c.Fail("left is wrong: %s", what)
				}
				if u != upLo && u != upHi {
					c.Fail("uploaded total is wrong: %s", what)
				}
				judged++
				if lo == hi {
					exact++
					c.Distinct(spec.Hash[:], d, a.At.Sub(w.Began()))
				}
			}
		}
		progress(c, out.Bytes(), spec.String())
		w.Net.Shutdown()
		close(w.HTTP.Stopping())
		_ = w.T.Close()
		c.Eval(1)
		c.Count("announces compared", judged)
		c.Count("announces with an exact total", exact)
		c.Count("disk observations", len(ticks))
		if fin {
			c.Count("downloads finished", 1)
		}
	})
}
