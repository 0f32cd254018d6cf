package c20

import (
	"fmt"
	"math/rand/v2"
	"net/netip"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"

	"verif/internal/mon"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C20",
		mon.Family{Name: "roomy", Quick: 1400, Thorough: 18000, Fn: func(c *mon.Case) { world(c, roomy) }},
		mon.Family{Name: "full", Quick: 1800, Thorough: 22000, Fn: func(c *mon.Case) { world(c, full) }},
		mon.Family{Name: "unreachable", Quick: 1000, Thorough: 12000, Fn: func(c *mon.Case) { world(c, unreachable) }},
		mon.Family{Name: "crowd", Quick: 120, Thorough: 1500, Fn: func(c *mon.Case) { world(c, crowd) }},
		mon.Family{Name: "shared", Quick: 240, Thorough: 3000, Fn: shared},
		mon.Family{Name: "pool", Quick: 1200, Thorough: 15000, Fn: pool},
	)
}

const (
	roomy = iota
	full
	unreachable
	crowd
)

const (
	grace  = 5 * time.Second  // a place without connection is free after this
	notice = 45 * time.Second // the end of a session is noticed within this, the client may pause up to 30 s
	soon   = time.Second      // a session starts after an announce within this
)

var urls = []string{"http://a.test/announce", "udp://b.test:80", "http://c.test/announce"}

type reply struct {
	at   time.Time
	list []netip.AddrPort
}

// addresses gives a numbering of peers; in some worlds many share an IP address.
// With v6 they are IPv6 addresses, which only dictionaries can carry.
func addresses(r *rand.Rand) (addr func(i int) netip.AddrPort, v6 bool) {
	hosts := 0
	if r.IntN(3) == 0 {
		hosts = 1 + r.IntN(3)
	}
	if r.IntN(5) == 0 {
		return func(i int) netip.AddrPort {
			b := [16]byte{0xfd, 15: byte(1 + i), 14: byte(i >> 8)}
			if hosts > 0 {
				b[15], b[14] = byte(1+i%hosts), 0
			}
			return netip.AddrPortFrom(netip.AddrFrom16(b), uint16(1000+i))
		}, true
	}
	return func(i int) netip.AddrPort {
		if hosts == 0 {
			return swarm.Addr(i + 1)
		}
		return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 9, 0, byte(1 + i%hosts)}), uint16(1000+i))
	}, false
}

func world(c *mon.Case, kind int) {
	r := c.R
	addr, v6 := addresses(r)
	used := urls[:1+r.IntN(len(urls))]
	if v6 {
		used = []string{urls[0], urls[2]}[:1+r.IntN(2)]
	}
	spec := swarm.Gen(r, swarm.Shape{Trackers: used, MaxPieces: 10, MaxPieceLen: 500})
	np := spec.NumPieces()
	n := 1 + r.IntN(12)
	limit := n + r.IntN(5)
	switch kind {
	case full:
		n = 2 + r.IntN(12)
		limit = 1 + r.IntN(n-1)
		if r.IntN(40) == 0 {
			limit = 0
		}
	case crowd:
		n = 60 + r.IntN(140)
		limit = []int{1, 10, 30, 50, 100}[r.IntN(5)]
	}
	gone := r.IntN(np) // nobody has it: the download does not end
	var scripts []*swarm.Script
	for i := 0; i < n; i++ {
		have := swarm.RandHave(r, np)
		have[gone] = false
		a := addr(i)
		var s *swarm.Script
		switch k := r.IntN(10); {
		case kind == unreachable && k < 6:
			s = swarm.Honest(r, a, have)
			switch r.IntN(4) {
			case 0:
				s.Blackhole = true
			case 1:
				s.Refuse = func(int) bool { return true }
			case 2:
				s.HS = swarm.HSSilent
			case 3:
				m := 1 + r.IntN(6)
				s.Refuse = func(k int) bool { return k%m != 0 }
			}
			s.Honest = false
		case k < 4:
			s = swarm.Honest(r, a, have)
		case k < 6:
			s = swarm.Honest(r, a, have)
			s.Life = time.Duration(1+r.IntN(20000)) * time.Millisecond
		default:
			s = swarm.Hostile(r, a, have)
		}
		if s.DialDelay > 1500*time.Millisecond {
			s.DialDelay = 1500 * time.Millisecond
		}
		scripts = append(scripts, s)
	}
	all := make([]netip.AddrPort, n)
	for i := range all {
		all[i] = addr(i)
	}
	horizon := time.Duration(30+r.IntN(120)) * time.Second
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		for _, s := range scripts {
			w.AddPeer(s)
			c.Logf("%s", s.Describe())
		}
		var mu sync.Mutex
		ends := map[string][]time.Time{} // remote side closed
		alive := map[string]int{}
		opens := map[string][]time.Time{}
		w.Net.OnSession = func(s *vnet.Session) {
			mu.Lock()
			alive[s.Addr]++
			opens[s.Addr] = append(opens[s.Addr], time.Now())
			mu.Unlock()
			s.Conn.OnClose = func() {
				mu.Lock()
				alive[s.Addr]--
				ends[s.Addr] = append(ends[s.Addr], time.Now())
				mu.Unlock()
			}
		}
		var replies []reply
		for _, u := range used {
			q := rand.New(rand.NewPCG(r.Uint64(), 2))
			iv := 2 + q.IntN(14)
			sub := q.IntN(3) == 0
			w.AddTracker(&swarm.Tracker{URL: u, Answer: func(k int, a *swarm.Announce) swarm.Reply {
				list := append([]netip.AddrPort(nil), all...)
				if q.IntN(2) == 0 {
					q.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
				}
				if sub {
					list = list[:q.IntN(len(list)+1)]
				}
				if len(list) > 0 && q.IntN(3) == 0 {
					list = append(list, list...)
				}
				d := time.Duration(0)
				if q.IntN(4) == 0 {
					d = time.Duration(q.IntN(450)) * time.Millisecond
				}
				mu.Lock()
				replies = append(replies, reply{time.Now().Add(d), list})
				mu.Unlock()
				return swarm.Reply{Peers: list, Interval: swarm.Int(iv), Delay: d, Dict: v6 || q.IntN(3) == 0}
			}})
		}
		w.Start(limit, 6881)
		end := w.Began().Add(horizon)
		if w.Wait(horizon) { // a peer announced and sent more than it has
			c.Count("downloads that ended", 1)
			end = time.Now().Add(-10 * time.Second) // from then on it may have been ending
		}
		w.Cancel()
		per, total := w.Net.Peak()
		if total > limit {
			c.Report("%d sessions at once, the limit is %d", total, limit)
		}
		for a, k := range per {
			if k > 1 {
				c.Report("%d sessions at once with %s", k, a)
			}
		}
		for a, k := range w.Net.Busy() {
			if k > 1 {
				c.Report("%d connections are made or open at once with %s", k, a)
			}
		}
		if c.Violated() {
			w.Finish()
			return
		}
		mu.Lock()
		rs, es, os := slices.Clone(replies), copied(ends), copied(opens)
		mu.Unlock()
		judge(c, w, rs, es, os, limit, end, spec)
		w.Finish()
		opened, _ := w.Net.Stats()
		c.Eval(1)
		c.Count("sessions", opened)
		c.Count("announce answers", len(replies))
		c.Count("max sessions at once", total)
		c.Distinct(kind, n, limit, opened, len(replies), total, fmt.Sprint(w.Net.Events()))
		c.Sample("%d peers, limit %d: %d sessions, at most %d at once, %d announce answers", n, limit, opened, total, len(replies))
	})
}

func copied(m map[string][]time.Time) map[string][]time.Time {
	out := map[string][]time.Time{}
	for k, v := range m {
		out[k] = slices.Clone(v)
	}
	return out
}

// judge checks that every announce answer fills the places that are free.
func judge(c *mon.Case, w *swarm.World, replies []reply, ends, opens map[string][]time.Time, limit int, end time.Time, spec *swarm.Spec) {
	events := w.Net.Events()
	peers := map[string]bool{}
	for _, p := range w.Peers {
		peers[p.Script.Addr] = true
	}
	// taken gives the addresses that may hold a place at t.
	taken := func(t time.Time) map[string]bool {
		m := map[string]bool{}
		last := map[string]time.Time{}
		for _, e := range events {
			// a session that ends at the instant of the answer may still hold its place
			if !peers[e.Addr] || !e.At.Before(t) && (e.Kind != "close" || e.At.After(t.Add(10*time.Millisecond))) {
				continue
			}
			last[e.Addr] = e.At
		}
		for a, at := range last {
			gone := len(ends[a]) > 0 && len(ends[a]) >= len(opens[a]) && ends[a][len(ends[a])-1].Before(t.Add(-notice))
			if t.Sub(at) < grace || !clientClosed(events, a, t) && !gone {
				m[a] = true
			}
		}
		return m
	}
	// every dial frees its place some time after the last sign of life; a row of
	// attempts to reach a silent peer never pauses longer than the grace
	sort.Slice(replies, func(i, j int) bool { return replies[i].at.Before(replies[j].at) })
	for _, rp := range replies {
		if rp.at.Add(soon).After(end) {
			continue
		}
		occ := taken(rp.at)
		free := limit - len(occ)
		want := map[string]bool{}
		for _, a := range rp.list {
			if !occ[a.String()] {
				want[a.String()] = true
			}
		}
		need := min(free, len(want))
		if need <= 0 {
			c.Count("answers with nothing to start", 1)
			continue
		}
		started := map[string]bool{}
		for _, e := range events {
			if e.Kind == "dial" && !e.At.Before(rp.at) && !e.At.After(rp.at.Add(soon)) && peers[e.Addr] && !occ[e.Addr] {
				started[e.Addr] = true
			}
		}
		if len(started) < need {
			for _, e := range events {
				if peers[e.Addr] {
					c.Logf("%s %s %s", e.At.Sub(w.Began()), e.Kind, e.Addr)
				}
			}
			c.Fail("%s after the start %d peers are announced, %d of them without session, %d of %d places are free: only %d sessions are started within %s (taken: %v, started: %v)\n%s",
				rp.at.Sub(w.Began()), len(rp.list), len(want), free, limit, len(started), soon, keys(occ), keys(started), spec)
		}
		c.Count("answers that start sessions", 1)
		c.Count("session starts required", need)
	}
}

// clientClosed tells if the client closed its last connection to a before t.
func clientClosed(events []vnet.Event, a string, t time.Time) bool {
	closed := true
	for _, e := range events {
		if e.Addr != a || e.At.After(t) {
			continue
		}
		switch e.Kind {
		case "open", "dial":
			closed = false
		case "close":
			closed = true
		}
	}
	return closed
}

func keys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// shared announces the same peers by all trackers at the same instant, over and
// over.
func shared(c *mon.Case) {
	r := c.R
	addr, v6 := addresses(r)
	urls := urls
	if v6 {
		urls = []string{urls[0], urls[2]}
	}
	spec := swarm.Gen(r, swarm.Shape{Trackers: urls, MaxPieces: 4, MaxPieceLen: 100})
	n := 1 + r.IntN(8)
	limit := 1 + r.IntN(n+2)
	var all []netip.AddrPort
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		for i := 0; i < n; i++ {
			a := addr(i)
			s := &swarm.Script{Addr: a.String(), Have: make([]bool, spec.NumPieces()), Honest: true, Seed: r.Uint64(), Unchoke: -1}
			if r.IntN(3) == 0 {
				s.Life = time.Duration(1+r.IntN(3000)) * time.Millisecond
			}
			w.AddPeer(s)
			all = append(all, a)
		}
		list := append([]netip.AddrPort(nil), all...)
		list = append(list, all...)
		list = append(list, all...)
		for _, u := range urls {
			w.AddTracker(&swarm.Tracker{URL: u, Answer: func(int, *swarm.Announce) swarm.Reply {
				return swarm.Reply{Peers: list, Interval: swarm.Int(1), Dict: v6}
			}})
		}
		w.Start(limit, 6881)
		w.Wait(20 * time.Second)
		per, total := w.Net.Peak()
		w.Finish()
		if total > limit {
			c.Fail("%d sessions at once, the limit is %d", total, limit)
		}
		for a, k := range per {
			if k > 1 {
				c.Fail("%d sessions at once with %s", k, a)
			}
		}
		for a, k := range w.Net.Busy() {
			if k > 1 {
				c.Fail("%d connections are made or open at once with %s", k, a)
			}
		}
		if total < min(limit, n) {
			c.Fail("only %d sessions at once of %d peers with a limit of %d", total, n, limit)
		}
		opened, _ := w.Net.Stats()
		c.Eval(1)
		c.Count("sessions", opened)
		c.Distinct("shared", n, limit, fmt.Sprint(w.Net.Events()))
	})
}

// pool adds peers from many goroutines at once.
func pool(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	spec := swarm.NewSpec(r, "t", true, []swarm.File{{Length: 10}}, 4, urls[:1], nil)
	swarm.Quiet(nil)
	t, err := spec.Load(dir)
	if err != nil {
		c.Fail("valid torrent is refused: %v", err)
	}
	defer t.Close()
	limit := 1 + r.IntN(12)
	m := download.NewMng(t, zap.NewNop(), limit, 1)
	addrs := 1 + r.IntN(20)
	addr, _ := addresses(r)
	workers := 2 + r.IntN(8)
	won := make([]atomic.Int64, addrs)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < workers; i++ {
		perm := r.Perm(addrs)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, a := range perm {
				p := peer.NewPeer(addr(a), t, torrent.NewPiecesQueue(), make(chan<- *util.PeerMessage, 1), zap.NewNop())
				if m.AddPeer(p) {
					won[a].Add(1)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	total := 0
	for a := range won {
		k := int(won[a].Load())
		if k > 1 {
			c.Fail("%s is taken into the pool %d times", addr(a), k)
		}
		total += k
	}
	if want := min(limit, addrs); total != want {
		c.Fail("%d goroutines offer %d peers: %d are taken, the limit is %d", workers, addrs, total, limit)
	}
	m.Stop()
	c.Eval(1)
	c.Count("concurrent offers", workers*addrs)
	c.Distinct("pool", limit, addrs, workers, r.Uint64())
}
