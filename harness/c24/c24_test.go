// Package c24 watches what a long download holds: memory, goroutines,
// connections and files.
package c24

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net/netip"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gosuri/uilive"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C24",
		mon.Family{Name: "flood", Quick: 64, Thorough: 1500, Fn: flood},
		mon.Family{Name: "churn", Quick: 48, Thorough: 1200, Fn: churn},
		mon.Family{Name: "newcomers", Quick: 32, Thorough: 800, Fn: newcomers},
		mon.Family{Name: "trackers", Quick: 32, Thorough: 800, Fn: trackers},
		mon.Family{Name: "idle", Quick: 16, Thorough: 400, Fn: idle},
	)
}

// room is how much more the client may hold at the end of a run than after its
// first part.
const room = 512 << 10

// huge is far above what a torrent of this check can need.
const huge = 96 << 20

type sample struct {
	heap  int64
	gs    int
	files int
	open  int
}

// measure looks at what is held now, with all goroutines of the bubble waiting.
func measure(w *swarm.World) sample {
	synctest.Wait()
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	s, p := w.Net.Open()
	fds, _ := os.ReadDir("/proc/self/fd")
	return sample{heap: int64(ms.HeapAlloc), gs: len(mon.GotitGoroutines()), files: len(fds), open: s + p + w.HTTP.Bodies()}
}

// least is the smallest of a few measurements: buffers in use come and go.
func least(w *swarm.World) sample {
	s := measure(w)
	for i := 0; i < 4; i++ {
		time.Sleep(time.Duration(300+170*i) * time.Millisecond)
		x := measure(w)
		s = sample{min(s.heap, x.heap), min(s.gs, x.gs), min(s.files, x.files), min(s.open, x.open)}
	}
	return s
}

type plan struct {
	what     string
	peers    int
	trackers int
	// units of work done so far
	work func() int
	// need is how many units lie between the two measurements.
	need int
	// limit of virtual time
	limit time.Duration
}

// judge waits for a third of the work, measures, waits for the rest and measures
// again.
func judge(c *mon.Case, w *swarm.World, p plan) {
	wait := func(n int) bool {
		for end := time.Now().Add(p.limit); p.work() < n; {
			if time.Now().After(end) {
				return false
			}
			if w.Wait(time.Second) {
				return false
			}
		}
		return true
	}
	if !wait(p.need / 2) {
		w.Finish()
		c.Count("runs that ended before their work was done", 1)
		return
	}
	at := p.work()
	a := least(w)
	if !wait(at + p.need) {
		w.Finish()
		c.Count("runs that ended before their work was done", 1)
		return
	}
	b := least(w)
	units := p.work() - at
	grown := b.heap - a.heap
	if b.heap > huge {
		w.Finish()
		c.Fail("%s: the client holds %d bytes for a torrent of %d", p.what, b.heap, w.Spec.Length)
	}
	if grown >= room {
		// a buffer in use, or something kept for good? as much again will tell
		if !wait(p.work() + p.need) {
			w.Finish()
			c.Count("runs that ended before their work was done", 1)
			return
		}
		x := least(w)
		c.Count("growth looked at once more", 1)
		c.Logf("%s: %d units, %+v then %+v then %+v", p.what, p.work()-at, a, b, x)
		if again := x.heap - a.heap; again >= grown+room/2 {
			units = p.work() - at
			w.Finish()
			c.Fail("%s: %d more of it and the client holds %d bytes more than before (%d)", p.what, units, again, a.heap)
		}
	}
	w.Finish()
	c.Logf("%s: %d units, %+v then %+v", p.what, units, a, b)
	most := 4*p.peers + 4*p.trackers + 16
	c.Check(b.gs <= most, "%s: the client runs %d goroutines (%d before) with at most %d peers and %d trackers", p.what, b.gs, a.gs, p.peers, p.trackers)
	c.Check(b.open <= p.peers+p.trackers, "%s: the client has %d connections (%d before) with at most %d peers and %d trackers", p.what, b.open, a.open, p.peers, p.trackers)
	c.Check(b.files <= a.files+2, "%s: %d files are open, %d before", p.what, b.files, a.files)
	c.Eval(1)
	c.Count("units of work: "+strings.SplitN(p.what, ":", 2)[0], units)
	c.Count("measurements", 10)
	c.Count("max heap growth", int(max(0, grown)))
	c.Count("max goroutines", b.gs)
	c.Distinct(p.what, units, p.peers, p.trackers)
	c.Sample("%s: %d units; heap %d then %d, goroutines %d then %d, connections %d then %d", p.what, units, a.heap, b.heap, a.gs, b.gs, a.open, b.open)
}

var url = []string{"http://tracker.test/announce"}

// spec is a torrent one of whose pieces nobody ever serves.
func spec(r *rand.Rand, urls []string) *swarm.Spec {
	pl := []int{64, 1000, 16384, 200000}[r.IntN(4)]
	n := 3 + r.IntN(40)
	if pl > 100000 {
		n = 3
	}
	return swarm.NewSpec(r, "t", true, []swarm.File{{Length: pl*n - r.IntN(pl)}}, pl, urls, nil)
}

func world(c *mon.Case, sp *swarm.Spec, dir string) *swarm.World {
	w := swarm.New(c, sp, dir)
	w.Net.Lean = true
	uilive.RefreshInterval = time.Second
	if c.R.IntN(2) == 0 {
		w.Log = zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), zapcore.AddSync(io.Discard), zap.DebugLevel))
	}
	return w
}

// hello reads the client's handshake and answers it.
func hello(s *vnet.Session, sp *swarm.Spec) bool {
	b := make([]byte, 68)
	for n := 0; n < 68; {
		m, err := s.Conn.Read(b[n:])
		if err != nil {
			return false
		}
		n += m
	}
	copy(b[48:], "-VF0001-abcdefghijkl")
	_, err := s.Conn.Write(b)
	return err == nil
}

func noise(r *rand.Rand) []byte {
	b := make([]byte, 100_000)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// drain swallows what the client sends.
func drain(s *vnet.Session) {
	go func() {
		b := make([]byte, 4096)
		for {
			if _, err := s.Conn.Read(b); err != nil {
				return
			}
		}
	}()
}

const (
	fKeepalive = iota
	fHave
	fHaveFar
	fField
	fRequest
	fCancel
	fUnknown
	fBigUnknown
	fPieceOther
	fPieceGood
	fPieceFar
	fChoke
	fInterest
	fPort
	fKinds
)

var kindNames = []string{"keepalives", "haves", "far haves", "bitfields", "requests", "cancels", "unknown", "big unknown", "unwanted blocks", "right blocks", "far blocks", "chokes", "interest", "short ones"}

func frame(r *rand.Rand, sp *swarm.Spec, kind int, junk []byte) []byte {
	n := sp.NumPieces()
	be := ref.U32
	msg := func(t byte, parts ...[]byte) []byte {
		size := 1
		for _, p := range parts {
			size += len(p)
		}
		out := append(be(uint32(size)), t)
		for _, p := range parts {
			out = append(out, p...)
		}
		return out
	}
	switch kind {
	case fKeepalive:
		return be(0)
	case fHave:
		return msg(4, be(uint32(r.IntN(n))))
	case fHaveFar:
		return msg(4, be(r.Uint32()))
	case fField:
		b := make([]byte, (n+7)/8)
		for i := 0; i < n-1; i++ { // never the last piece
			if r.IntN(2) == 0 {
				b[i/8] |= 0x80 >> (i % 8)
			}
		}
		return msg(5, b)
	case fRequest:
		return msg(6, be(r.Uint32()), be(r.Uint32()), be(16384))
	case fCancel:
		return msg(8, be(uint32(r.IntN(n))), be(r.Uint32()), be(16384))
	case fUnknown:
		return msg(byte(20+r.IntN(200)), junk[:r.IntN(64)])
	case fBigUnknown:
		return msg(byte(20+r.IntN(200)), junk[:len(junk)-r.IntN(1000)])
	case fPieceOther:
		// not what is asked for
		return msg(7, be(uint32(r.IntN(n))), be(uint32(1+r.IntN(7))), junk[:1+r.IntN(20000)])
	case fPieceGood:
		i := r.IntN(n - 1)
		d := sp.Piece(i)
		return msg(7, be(uint32(i)), be(0), d[:min(len(d), swarm.BlockLimit)])
	case fPieceFar:
		return msg(7, be(r.Uint32()), be(r.Uint32()), junk[:1+r.IntN(20000)])
	case fChoke:
		return msg(byte(r.IntN(2)))
	case fInterest:
		return msg(byte(2 + r.IntN(2)))
	default:
		return msg(byte([]int{4, 6, 7, 8}[r.IntN(4)]), junk[:r.IntN(3)])
	}
}

// flood has peers that send messages without end.
func flood(c *mon.Case) {
	r := c.R
	var num int
	fmt.Sscanf(c.ID, "flood/%d", &num)
	kinds := []int{num % fKinds}
	what := kindNames[kinds[0]]
	if num%4 == 3 {
		kinds, what = kinds[:0], "all kinds"
		for k := 0; k < fKinds; k++ {
			kinds = append(kinds, k)
		}
	}
	sp := spec(r, url)
	peers := 1 + r.IntN(3)
	junk := noise(r)
	opened := r.IntN(2) == 0 // announces pieces and lets the client ask
	var sent, frames atomic.Int64
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := world(c, sp, dir)
		var addrs []netip.AddrPort
		for i := 0; i < peers; i++ {
			a := swarm.Addr(i + 1)
			addrs = append(addrs, a)
			seed := r.Uint64()
			w.Net.Add(a.String(), &vnet.Host{Serve: func(s *vnet.Session) {
				pr := rand.New(rand.NewPCG(seed, uint64(s.Number)))
				s.Conn.SetWriteCap(1 << 18)
				if !hello(s, sp) {
					return
				}
				drain(s)
				if opened {
					if _, err := s.Conn.Write(append(frame(pr, sp, fField, junk), 0, 0, 0, 1, 1)); err != nil {
						return
					}
				}
				for {
					var batch []byte
					k := 0
					for ; k < 400 && len(batch) < 200_000; k++ {
						batch = append(batch, frame(pr, sp, kinds[pr.IntN(len(kinds))], junk)...)
					}
					if _, err := s.Conn.Write(batch); err != nil {
						return
					}
					sent.Add(int64(len(batch)))
					frames.Add(int64(k))
					t := time.NewTimer(20 * time.Millisecond)
					select {
					case <-t.C:
					case <-s.Stopped():
						t.Stop()
						return
					}
				}
			}})
		}
		w.AddTracker(&swarm.Tracker{URL: url[0], Lean: true, Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(1)}
		}})
		w.Start(peers, 6881)
		// in units of a thirty-two byte message, or of as many bytes of big ones
		judge(c, w, plan{what: "flood of " + what + ": messages", peers: peers, trackers: 1, need: 60_000, limit: 40 * time.Minute,
			work: func() int { return int(max(min(frames.Load(), 1<<40), sent.Load()/400)) }})
	})
}

// churn has peers whose sessions end again and again, in every way.
func churn(c *mon.Case) {
	r := c.R
	sp := spec(r, url)
	n := sp.NumPieces()
	peers := 10 + r.IntN(40)
	most := 1 + r.IntN(peers+5)
	var sessions atomic.Int64
	junk := noise(r)
	way := r.IntN(8)
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := world(c, sp, dir)
		var addrs []netip.AddrPort
		for i := 0; i < peers; i++ {
			a := swarm.Addr(i + 1)
			addrs = append(addrs, a)
			k := way
			if way >= 6 {
				k = i % 6
			}
			h := &vnet.Host{}
			switch k {
			case 0: // does not take the call
				h.Refuse = func(int) bool { sessions.Add(1); return true }
			default:
				seed := r.Uint64()
				h.Serve = func(s *vnet.Session) {
					sessions.Add(1)
					pr := rand.New(rand.NewPCG(seed, uint64(s.Number)))
					if k == 1 { // leaves at once
						return
					}
					if k == 2 { // a wrong handshake
						_, _ = s.Conn.Write(junk[:68])
						return
					}
					if !hello(s, sp) {
						return
					}
					if k == 3 { // leaves after the handshake
						return
					}
					// asks the client to ask, then fails it
					have := make([]byte, (n+7)/8)
					have[0] = 0x80
					_, _ = s.Conn.Write(append(append(append(ref.U32(uint32(1+len(have))), 5), have...), 0, 0, 0, 1, 1))
					var spl ref.Splitter
					spl.Feed(make([]byte, 68), 1) // the handshake
					b := make([]byte, 4096)
					for {
						m, err := s.Conn.Read(b)
						if err != nil {
							return
						}
						_, fr, over := spl.Feed(append(make([]byte, 0, m), b[:m]...), 1<<21)
						if over {
							return
						}
						for _, f := range fr {
							if f.Type == ref.Request {
								if k == 5 { // wrong data
									_, _ = s.Conn.Write(frame(pr, sp, fPieceOther, junk))
									bad := append(ref.U32(uint32(9+f.At(2))), 7)
									bad = append(bad, f.Payload[:8]...)
									bad = append(bad, make([]byte, f.At(2))...)
									_, _ = s.Conn.Write(bad)
									continue
								}
								return
							}
						}
					}
				}
			}
			w.Net.Add(a.String(), h)
		}
		w.AddTracker(&swarm.Tracker{URL: url[0], Lean: true, Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(1)}
		}})
		w.Start(most, 6881)
		judge(c, w, plan{what: fmt.Sprintf("sessions that end: kind %d", way), peers: most, trackers: 1, need: 8000, limit: 20 * time.Hour,
			work: func() int { return int(sessions.Load()) }})
	})
}

// newcomers: trackers list addresses nobody has heard of before.
func newcomers(c *mon.Case) {
	r := c.R
	urls := []string{url[0], "udp://udp.test:1337"}
	sp := spec(r, urls)
	most := 1 + r.IntN(60)
	var told atomic.Int64
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := world(c, sp, dir)
		for i, u := range urls {
			per := 1 + r.IntN(70)
			dict := r.IntN(2) == 0
			w.AddTracker(&swarm.Tracker{URL: u, Lean: true, Answer: func(k int, _ *swarm.Announce) swarm.Reply {
				list := make([]netip.AddrPort, per)
				for j := range list {
					next := (k*per+j)*2 + i
					list[j] = netip.AddrPortFrom(netip.AddrFrom4([4]byte{11, byte(next >> 16), byte(next >> 8), byte(next)}), 7000)
				}
				told.Add(int64(per))
				return swarm.Reply{Peers: list, Interval: swarm.Int(1), Dict: dict}
			}})
		}
		w.Start(most, 6881)
		judge(c, w, plan{what: "new addresses", peers: most, trackers: 2, need: 20_000, limit: 40 * time.Hour,
			work: func() int { return int(told.Load()) }})
	})
}

// trackers answer, fail and stall for days.
func trackers(c *mon.Case) {
	r := c.R
	var urls []string
	n := 1 + r.IntN(5)
	for i := 0; i < n; i++ {
		if r.IntN(2) == 0 {
			urls = append(urls, fmt.Sprintf("udp://u%d.test:1337", i))
		} else {
			urls = append(urls, fmt.Sprintf("http://h%d.test/announce", i))
		}
	}
	sp := spec(r, urls)
	var count atomic.Int64
	body := []byte("d5:peers" + strings.Repeat("d2:ip9:300.1.2.34:porti99999ee", 200) + "e")
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := world(c, sp, dir)
		for _, u := range urls {
			mode := r.IntN(7)
			w.AddTracker(&swarm.Tracker{URL: u, Lean: true, Answer: func(k int, _ *swarm.Announce) swarm.Reply {
				count.Add(1)
				m := mode
				if m == 6 {
					m = k % 6
				}
				switch m {
				case 0:
					return swarm.Reply{Interval: swarm.Int(1)}
				case 1:
					return swarm.Reply{Failure: strings.Repeat("no ", 100)}
				case 2:
					return swarm.Reply{Err: true}
				case 3:
					return swarm.Reply{Status: []int{503, 404, 500, 204, 301}[k%5], Body: body}
				case 4:
					return swarm.Reply{Body: []byte("d8:intervali1e5:peers3:abc"), Interval: swarm.Int(1)}
				default:
					return swarm.Reply{Body: body, Interval: swarm.Int(1)}
				}
			}})
		}
		w.Start(5, 6881)
		judge(c, w, plan{what: "announces", peers: 5, trackers: n, need: 6000, limit: 400 * time.Hour,
			work: func() int { return int(count.Load()) }})
	})
}

// idle sessions last for days.
func idle(c *mon.Case) {
	r := c.R
	sp := spec(r, url)
	peers := 1 + r.IntN(10)
	choked := r.IntN(2) == 0
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := world(c, sp, dir)
		var addrs []netip.AddrPort
		for i := 0; i < peers; i++ {
			a := swarm.Addr(i + 1)
			addrs = append(addrs, a)
			w.Net.Add(a.String(), &vnet.Host{Serve: func(s *vnet.Session) {
				if !hello(s, sp) {
					return
				}
				if !choked {
					_, _ = s.Conn.Write([]byte{0, 0, 0, 1, 1})
				}
				b := make([]byte, 4096)
				for {
					if _, err := s.Conn.Read(b); err != nil {
						return
					}
				}
			}})
		}
		w.AddTracker(&swarm.Tracker{URL: url[0], Lean: true, Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(600)}
		}})
		w.Start(peers, 6881)
		began := time.Now()
		judge(c, w, plan{what: "idle seconds", peers: peers, trackers: 1, need: 40_000, limit: 40 * time.Hour,
			work: func() int { return int(time.Since(began) / time.Second) }})
	})
}
