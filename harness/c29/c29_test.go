//go:build verif

// C29: good peers set the pace. Downloads in virtual time from peers that
// answer every request after a known delay; the duration of the download is
// compared with what the peers' answers alone take.
package c29

import (
	"fmt"
	"math/rand/v2"
	"net/netip"
	"testing"
	"time"

	"verif/internal/mon"
	"verif/internal/swarm"
)

const trackerURL = "http://tracker.test/announce"

func Test(t *testing.T) {
	mon.Main(t, "C29",
		mon.Family{Name: "one", Quick: 240, Thorough: 2400, Fn: func(c *mon.Case) { run(c, opts{peers: 1}) }},
		mon.Family{Name: "many", Quick: 480, Thorough: 4800, Fn: func(c *mon.Case) { run(c, opts{peers: 2 + c.R.IntN(15)}) }},
		mon.Family{Name: "mixed", Quick: 720, Thorough: 7200, Fn: func(c *mon.Case) { run(c, opts{peers: 1 + c.R.IntN(8), bad: 1 + c.R.IntN(8)}) }},
		mon.Family{Name: "dead", Quick: 240, Thorough: 2400, Fn: func(c *mon.Case) { run(c, opts{peers: 1 + c.R.IntN(4), dead: 10 + c.R.IntN(40)}) }},
		mon.Family{Name: "trackers", Quick: 240, Thorough: 2400, Fn: func(c *mon.Case) { run(c, opts{peers: 1 + c.R.IntN(4), trackers: true}) }},
		mon.Family{Name: "joined", Quick: 240, Thorough: 2400, Fn: func(c *mon.Case) { run(c, opts{peers: 2 + c.R.IntN(6), joined: true, bad: c.R.IntN(2)}) }},
	)
}

type opts struct {
	peers, bad, dead int
	trackers, joined bool
}

const (
	perBlock = 50 * time.Millisecond // what the client may add to every answer
	startup  = 15 * time.Second      // announces, dials, handshakes, unchokes, the end
)

func run(c *mon.Case, o opts) {
	r := c.R
	urls := []string{trackerURL}
	if o.trackers {
		urls = append(urls, "http://late.test/announce", "http://mute.test/announce", "udp://udp.test:1337", "udp://mute.test:80/announce", "http://busy.test/announce")
		r.Shuffle(len(urls), func(i, j int) { urls[i], urls[j] = urls[j], urls[i] })
	}

	pieceLen := []int{1, 16, 100, 1000}[r.IntN(4)]
	n := 300 + r.IntN(900)
	perPiece := 1
	if r.IntN(6) == 0 {
		perPiece = 1 + r.IntN(4)
		pieceLen = perPiece*swarm.BlockLimit - r.IntN(2)*r.IntN(swarm.BlockLimit)
		n = 30 + r.IntN(40)
	}
	total := n*pieceLen - r.IntN(pieceLen)
	single := r.IntN(2) == 0
	spec := swarm.NewSpec(r, "pace", single, swarm.Layout(r, total, pieceLen, single), pieceLen, urls, nil)

	// rate is what all good peers answer in a second
	var rate float64
	var slowest time.Duration
	level := time.Duration(r.IntN(600)) * time.Millisecond
	var scripts []*swarm.Script
	var addrs []netip.AddrPort
	add := func(s *swarm.Script) {
		scripts = append(scripts, s)
		addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
	}
	for i := 0; i < o.peers; i++ {
		s := swarm.Honest(r, swarm.Addr(i+1), swarm.All(n))
		s.Later, s.Chokes, s.DelaySpread = nil, nil, 0
		s.Unchoke /= 4
		s.Delay = level
		switch r.IntN(4) {
		case 0:
			s.Delay = 0
		case 1:
			s.Delay = time.Duration(r.IntN(700)) * time.Millisecond
		}
		slowest = max(slowest, s.Delay)
		rate += 1 / (s.Delay + perBlock).Seconds()
		add(s)
	}
	for i := 0; i < o.bad; i++ {
		add(bad(r, swarm.Addr(100+i), n))
	}
	for i := 0; i < o.dead; i++ {
		s := swarm.Hostile(r, swarm.Addr(200+i), swarm.All(n))
		s.Refuse = nil
		switch r.IntN(4) {
		case 0:
			s.Blackhole = true
		case 1:
			s.HS = swarm.HSSilent
		case 2:
			s.HS = swarm.HSShort
		case 3:
			s.Unchoke = -1
		}
		add(s)
	}
	blocks := float64(spec.Blocks())
	interval := 1800
	ideal := seconds(blocks / rate)
	if o.joined {
		// the first answer has one peer only
		interval = 5 + r.IntN(60)
		alone := 1 / (scripts[0].Delay + perBlock).Seconds()
		ideal = seconds(blocks / alone)
		if left := blocks - alone*float64(interval); left > 0 {
			ideal = seconds(float64(interval) + left/rate)
		}
	}
	bound := startup + ideal + time.Duration(perPiece)*(slowest+perBlock) + time.Duration(o.bad)*4*time.Second
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		for _, s := range scripts {
			w.AddPeer(s)
			c.Logf("%s", s.Describe())
		}
		order := r.Perm(len(addrs))
		shuffled := make([]netip.AddrPort, len(addrs))
		for i, j := range order {
			shuffled[i] = addrs[j]
		}
		addTrackers(w, urls, shuffled, addrs[:1], interval, o.joined)
		c.Logf("%s", spec)
		w.Start(len(addrs), 6881)
		ok := w.Wait(bound)
		took := w.Since()
		if !ok {
			img, _ := spec.Disk(dir)
			on := spec.OnDisk(img)
			stored := 0
			for _, has := range on {
				if has {
					stored++
				}
			}
			answers := ""
			for _, p := range w.Peers {
				ans, _, _ := p.Stats()
				answers += fmt.Sprintf(" %s: %d", p.Addr, ans)
			}
			for i, e := range w.Net.Events() {
				if i > 100 {
					break
				}
				c.Logf("+%s %s %s", e.At.Sub(w.Began()), e.Kind, e.Addr)
			}
			w.Finish()
			c.Fail("%d good peers answer %d blocks within %s, yet after %s of virtual time the download is not complete: %d of %d pieces stored; answers:%s\n%s", o.peers, spec.Blocks(), ideal, took, stored, n, answers, spec)
		}
		w.Finish()
		if err := spec.Complete(dir); err != nil {
			c.Fail("finished download has wrong content: %v\n%s", err, spec)
		}
		c.Eval(1)
		c.Count("downloads in time", 1)
		c.Count("blocks downloaded", spec.Blocks())
		busy := 0
		for i, p := range w.Peers {
			ans, _, _ := p.Stats()
			if i < o.peers {
				c.Count("blocks answered by good peers", ans)
				if ans > 0 {
					busy++
				}
			} else {
				c.Count("answers of bad peers", ans)
			}
		}
		c.Count("good peers used", busy)
		c.Distinct(spec.String(), o.peers, o.bad, o.dead, took)
		c.Sample("%d blocks, %d good, %d bad and %d dead peers: took %s, the answers alone %s, limit %s", spec.Blocks(), o.peers, o.bad, o.dead, took, ideal, bound)
	})
}

func seconds(s float64) time.Duration { return time.Duration(s * float64(time.Second)) }

// bad peers get in the way: they accept and stay silent, refuse, choke, lie,
// leave, or deliver slowly.
func bad(r *rand.Rand, addr netip.AddrPort, n int) *swarm.Script {
	s := swarm.Hostile(r, addr, swarm.All(n))
	switch r.IntN(8) {
	case 0:
		s.Blackhole = true
	case 1:
		s.HS = swarm.HSSilent
	case 2:
		s.Unchoke = -1
	case 3:
		s.Answers = func(int, *rand.Rand) int { return swarm.Stall }
	case 4, 5:
		s = swarm.Choker(r, addr, swarm.All(n))
	}
	return s
}

// addTrackers: every peer is known to every tracker that answers.
func addTrackers(w *swarm.World, urls []string, addrs, first []netip.AddrPort, interval int, joined bool) {
	for _, u := range urls {
		t := &swarm.Tracker{URL: u}
		switch u {
		case "http://mute.test/announce", "udp://mute.test:80/announce":
			t.Answer = func(int, *swarm.Announce) swarm.Reply { return swarm.Reply{Hang: true} }
		case "http://busy.test/announce":
			t.Answer = func(int, *swarm.Announce) swarm.Reply { return swarm.Reply{Err: true} }
		default:
			t.Answer = func(n int, _ *swarm.Announce) swarm.Reply {
				if joined && n == 0 {
					return swarm.Reply{Peers: first, Interval: &interval}
				}
				return swarm.Reply{Peers: addrs, Interval: &interval}
			}
		}
		w.AddTracker(t)
	}
}
