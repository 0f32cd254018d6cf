package c18

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"net/netip"
	"strings"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/tracker"

	"verif/internal/mon"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C18",
		mon.Family{Name: "cadence", Quick: 1200, Thorough: 15000, Fn: func(c *mon.Case) { run(c, false) }},
		mon.Family{Name: "failing", Quick: 1400, Thorough: 17000, Fn: func(c *mon.Case) { run(c, true) }},
		mon.Family{Name: "days", Quick: 16, Thorough: 200, Fn: days},
		mon.Family{Name: "wait", Quick: 3000, Thorough: 30000, Fn: wait},
	)
}

const (
	slack    = 6 * time.Second // to send the next announce after the interval
	stopTime = 3 * time.Second
)

// patience is how long a silent tracker may be waited for.
const patience = time.Minute

// entry is one announce and its answer as the tracker saw them.
type entry struct {
	at, end time.Time // received, answered
	ok      bool
	iv      *int
}

type site struct {
	url  string
	mu   sync.Mutex
	log  []entry
	plan func(n int) swarm.Reply
	lost int // UDP: so many looks for the name find nothing

	connects func(n int) swarm.Reply // UDP: replies to connect requests, nil if all are answered
}

// lookup is asked when the name of a UDP tracker is looked for. A failure counts
// as a failed announce.
func (s *site) lookup(n int) bool {
	if n >= s.lost {
		return false
	}
	now := time.Now()
	s.mu.Lock()
	s.log = append(s.log, entry{at: now, end: now})
	s.mu.Unlock()
	return true
}

// connect is asked for the reply to a connect request. One without a usable
// reply is a failed announce.
func (s *site) connect(n int) swarm.Reply {
	if s.connects == nil {
		return swarm.Reply{}
	}
	r := s.connects(n)
	if r.Err || r.Failure != "" || r.Delay > 0 {
		now := time.Now()
		s.mu.Lock()
		s.log = append(s.log, entry{at: now, end: now.Add(r.Delay)})
		s.mu.Unlock()
	}
	return r
}

func (s *site) answer(n int, _ *swarm.Announce) swarm.Reply {
	r := s.plan(n)
	now := time.Now()
	e := entry{at: now, end: now.Add(r.Delay), ok: r.Failure == "" && r.Status == 0 && !r.Err && !r.Hang && r.Body == nil, iv: r.Interval}
	hang := r.Hang && !strings.HasPrefix(s.url, "udp")
	if hang {
		e.end = time.Time{}
	}
	if r.Delay >= 500*time.Millisecond && strings.HasPrefix(s.url, "udp") {
		e.ok = false // too late for the client
	}
	s.mu.Lock()
	i := len(s.log)
	s.log = append(s.log, e)
	s.mu.Unlock()
	if hang {
		r.Done = func() {
			s.mu.Lock()
			s.log[i].end = time.Now()
			s.mu.Unlock()
		}
	}
	return r
}

// wait the tracker asked for: bounds of the gap after a good answer.
func bounds(iv *int) (lo, hi time.Duration) {
	switch {
	case iv == nil || *iv <= 0:
		return 50 * time.Second, 90 * time.Second
	case *iv > math.MaxInt32:
		return 50 * time.Second, math.MaxInt64
	}
	d := time.Duration(*iv) * time.Second
	return d, d + slack
}

func check(c *mon.Case, s *site, start, end time.Time) int {
	s.mu.Lock()
	log := append([]entry(nil), s.log...)
	s.mu.Unlock()
	trace := func(upto int) string {
		var b strings.Builder
		for i := max(0, upto-12); i <= upto && i < len(log); i++ {
			e := log[i]
			iv := "none"
			if e.iv != nil {
				iv = fmt.Sprint(*e.iv)
			}
			fmt.Fprintf(&b, "\n  announce %d at %s ok=%v interval=%s", i, e.at.Sub(start), e.ok, iv)
		}
		return b.String()
	}
	if len(log) == 0 {
		c.Fail("%s: no announce within %s", s.url, end.Sub(start))
	}
	if d := log[0].at.Sub(start); d > 5*time.Second {
		c.Fail("%s: first announce after %s", s.url, d)
	}
	var W time.Duration = time.Minute // waiting interval in force
	var Whi time.Duration = 90 * time.Second
	known := true
	judged := 0
	burst := []time.Duration{} // pauses of the failing run, up to the next long wait
	for i, e := range log {
		if e.ok {
			W, Whi = bounds(e.iv)
			known = Whi != math.MaxInt64
			burst = burst[:0]
		}
		last := i == len(log)-1
		if e.end.IsZero() && (!last || end.Sub(e.at) > patience) {
			c.Fail("%s: an announce without any answer is still waited for after %s%s", s.url, end.Sub(e.at), trace(i))
		}
		if !e.end.IsZero() && e.end.Sub(e.at) > patience {
			c.Fail("%s: an announce without any answer is waited for %s%s", s.url, e.end.Sub(e.at), trace(i))
		}
		var gap time.Duration
		if last {
			if e.end.IsZero() { // still hanging
				e.end = end
			}
			gap = end.Sub(e.end)
		} else {
			gap = log[i+1].at.Sub(e.end)
		}
		if e.ok {
			lo, hi := bounds(e.iv)
			if !last && gap < lo {
				c.Fail("%s: announce %s after an answer asking for %s%s", s.url, gap, lo, trace(i+1))
			}
			if gap > hi {
				c.Fail("%s: no announce for %s after an answer asking for %s%s", s.url, gap, lo, trace(i+1))
			}
			judged++
			continue
		}
		// failed
		if !last && gap < 500*time.Millisecond {
			c.Fail("%s: announce again %s after a failure%s", s.url, gap, trace(i+1))
		}
		if known {
			if limit := max(W, time.Minute) + time.Minute; gap > limit {
				c.Fail("%s: no announce for %s after a failure, the waiting interval is %s%s", s.url, gap, W, trace(i+1))
			}
		}
		if !last && known && W >= 40*time.Second {
			if gap >= W*3/4 {
				burst = burst[:0]
			} else {
				burst = append(burst, gap)
				if len(burst) > 9 {
					c.Fail("%s: %d announces in a row without waiting the interval of %s%s", s.url, len(burst)+1, W, trace(i+1))
				}
				if n := len(burst); n >= 2 && burst[n-1] < burst[n-2]*9/10 || n >= 4 && burst[n-1] < burst[0]*3/2 {
					c.Fail("%s: pauses between retries do not grow: %v%s", s.url, burst, trace(i+1))
				}
			}
		}
		judged++
	}
	// never hammered: a window of the waiting interval holds few announces
	for i := range log {
		if i+10 < len(log) {
			if d := log[i+10].at.Sub(log[i].at); d < 9*time.Second {
				c.Fail("%s: 11 announces within %s%s", s.url, d, trace(i+10))
			}
		}
	}
	c.Count("announces", len(log))
	c.Count("pauses judged", judged)
	return len(log)
}

var ivs = []int{1, 2, 3, 5, 10, 29, 30, 59, 60, 61, 120, 300, 900, 1800}
var oddIvs = []int{0, -1, -60, math.MinInt32, math.MaxInt32, 3000000}

func randIv(r *rand.Rand, udp bool) *int {
	switch r.IntN(8) {
	case 0:
		return nil
	case 1:
		return swarm.Int(oddIvs[r.IntN(len(oddIvs))])
	case 2:
		if !udp {
			return swarm.Int([]int{math.MaxInt32 + 1, math.MaxInt64, math.MinInt64, 1 << 40, 9223372037}[r.IntN(5)])
		}
	}
	return swarm.Int(ivs[r.IntN(len(ivs))])
}

func run(c *mon.Case, failing bool) {
	r := c.R
	k := 1 + r.IntN(4)
	var sites []*site
	var used []string
	for i := 0; i < k; i++ {
		udp := r.IntN(2) == 0
		s := &site{url: fmt.Sprintf("http://t%d.test/announce", i)}
		if udp {
			s.url = fmt.Sprintf("udp://t%d.test:80", i)
		}
		q := rand.New(rand.NewPCG(r.Uint64(), 1))
		fixed := randIv(q, udp)
		if q.IntN(3) == 0 {
			fixed = swarm.Int(ivs[q.IntN(len(ivs))])
		}
		vary := q.IntN(3) == 0
		style := q.IntN(6)
		hang, hangs := -1, 0
		if failing && !udp && q.IntN(4) == 0 {
			hang, hangs = q.IntN(4), 1+q.IntN(8)
		}
		if failing && udp && q.IntN(3) == 0 {
			s.lost = []int{1 + q.IntN(4), 5, 1 + q.IntN(16), math.MaxInt}[q.IntN(4)]
		}
		if failing && udp && q.IntN(3) == 0 {
			until, share := []int{3, 12, 40, math.MaxInt}[q.IntN(4)], 1+q.IntN(3)
			s.connects = func(n int) swarm.Reply {
				if n >= until || q.IntN(share) > 0 {
					return swarm.Reply{}
				}
				return []swarm.Reply{{Err: true}, {Failure: "not now"}, {Delay: 600 * time.Millisecond}}[q.IntN(3)]
			}
		}
		from, to := q.IntN(4), q.IntN(15)
		s.plan = func(n int) swarm.Reply {
			rep := swarm.Reply{Interval: fixed}
			if vary {
				rep.Interval = randIv(q, udp)
			}
			if q.IntN(3) == 0 {
				rep.Delay = time.Duration(q.IntN(400)) * time.Millisecond
			}
			if n >= hang && n < hang+hangs {
				return swarm.Reply{Hang: true}
			}
			if !failing {
				return rep
			}
			bad := false
			switch style {
			case 0:
				bad = true
			case 1:
				bad = n >= from && n < from+to
			case 2:
				bad = q.IntN(2) == 0
			case 3:
				bad = n > 0
			case 4:
				bad = n%6 != 5
			}
			if bad {
				f := swarm.Reply{}
				switch q.IntN(5) {
				case 0:
					f.Failure = "not now"
				case 1:
					f.Err = true
				case 2:
					f.Err = true
					if !udp {
						f.Err, f.Status = false, 500
					}
				case 3:
					if udp {
						f.Hang = true
					} else {
						f.Body = []byte("d8:interval")
					}
				case 4:
					f.Failure = "busy"
					f.Delay = time.Duration(q.IntN(450)) * time.Millisecond
				}
				return f
			}
			return rep
		}
		sites = append(sites, s)
		used = append(used, s.url)
	}
	if failing || r.IntN(3) == 0 {
		for _, u := range []string{"ftp://no.test/x", "udp://nowhere.test:1", "http://unknown.test/announce", "", "://", "http://[::1/announce", "udp://"} {
			if r.IntN(3) == 0 {
				used = append(used, u)
			}
		}
		r.Shuffle(len(used), func(i, j int) { used[i], used[j] = used[j], used[i] })
	}
	spec := swarm.Gen(r, swarm.Shape{Trackers: used, MaxPieces: 6})
	horizon := time.Duration(30+r.IntN(600)) * time.Second
	if r.IntN(6) == 0 {
		horizon = time.Duration(2000+r.IntN(3000)) * time.Second
	}
	var addrs []netip.AddrPort
	var scripts []*swarm.Script
	serving := r.IntN(2) == 0 // some data arrives
	for i := 0; i < r.IntN(4); i++ {
		s := swarm.Hostile(r, swarm.Addr(i+1), swarm.All(spec.NumPieces()))
		s.Unchoke, s.UnchokeFirst = -1, false
		s.NoiseEvery, s.Noise, s.Chokes = 0, nil, nil
		if serving {
			have := swarm.All(spec.NumPieces())
			have[len(have)-1] = false // the download cannot end
			s = swarm.Honest(r, swarm.Addr(i+1), have)
		}
		scripts = append(scripts, s)
		addrs = append(addrs, swarm.Addr(i+1))
	}
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		for _, s := range scripts {
			w.AddPeer(s)
		}
		for _, s := range sites {
			plan := s.plan
			s.plan = func(n int) swarm.Reply {
				rep := plan(n)
				if rep.Failure == "" && !rep.Err {
					rep.Peers = addrs
				}
				return rep
			}
			w.AddTracker(&swarm.Tracker{URL: s.url, Answer: s.answer, Lookup: s.lookup, Connect: s.connect})
		}
		w.Start(1+r.IntN(5), 6881)
		start := time.Now()
		if w.Wait(horizon) {
			w.Finish()
			c.Fail("download without data returned by itself after %s: %v", time.Since(start), w.Err())
		}
		end := time.Now()
		total := 0
		for _, s := range sites {
			total += check(c, s, start, end)
		}
		w.Cancel()
		if !w.Wait(stopTime) {
			c.Report("download has not returned %s after the cancel at %s with trackers %v", stopTime, end.Sub(start), used)
			w.Finish()
			return
		}
		took := time.Since(end)
		before := 0
		for _, s := range sites {
			s.mu.Lock()
			before += len(s.log)
			s.mu.Unlock()
		}
		time.Sleep(5 * time.Minute)
		after := 0
		for _, s := range sites {
			s.mu.Lock()
			after += len(s.log)
			s.mu.Unlock()
		}
		if after != before {
			c.Fail("%d announces after the download was cancelled and had returned", after-before)
		}
		w.Finish()
		c.Eval(1)
		c.Count("trackers watched", len(sites))
		c.Count("virtual seconds watched", int(end.Sub(start).Seconds()))
		var hist []any
		for _, s := range sites {
			for _, e := range s.log {
				hist = append(hist, e.at.Sub(start), e.ok)
			}
		}
		c.Distinct(fmt.Sprint(hist))
		c.Sample("%d trackers (%v), %d announces in %s, cancelled within %s", len(sites), used, total, horizon, took)
	})
}

// days keeps a download running for days.
func days(c *mon.Case) {
	r := c.R
	iv := []int{1800, 3600, 7200, 43200, 86400}[r.IntN(5)]
	s := &site{url: "http://t.test/announce", plan: func(int) swarm.Reply { return swarm.Reply{Interval: swarm.Int(iv)} }}
	s2 := &site{url: "udp://u.test:80", plan: func(int) swarm.Reply { return swarm.Reply{Interval: swarm.Int(iv / 2)} }}
	spec := swarm.Gen(r, swarm.Shape{Trackers: []string{s.url, s2.url}, MaxPieces: 3})
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		w.AddTracker(&swarm.Tracker{URL: s.url, Answer: s.answer, Lookup: s.lookup, Connect: s.connect})
		w.AddTracker(&swarm.Tracker{URL: s2.url, Answer: s2.answer})
		w.Start(3, 6881)
		start := time.Now()
		w.Wait(time.Duration(iv)*time.Second + 3*time.Hour)
		check(c, s, start, time.Now())
		check(c, s2, start, time.Now())
		w.Finish()
		c.Eval(1)
		c.Count("long downloads", 1)
		c.Distinct("days", iv)
	})
}

// wait asks a tracker client directly.
func wait(c *mon.Case) {
	r := c.R
	udp := r.IntN(2) == 0
	u := "http://t.test/announce"
	if udp {
		u = "udp://t.test:80"
	}
	var seq []*int
	for i := 0; i < 1+r.IntN(3); i++ {
		seq = append(seq, randIv(r, udp))
	}
	none := r.IntN(6) == 0 // ask before any announce
	c.Bubble(func() {
		w := swarm.New(c, nil, "")
		w.AddTracker(&swarm.Tracker{URL: u, Answer: func(n int, _ *swarm.Announce) swarm.Reply { return swarm.Reply{Interval: seq[min(n, len(seq)-1)]} }})
		gotitnet.DialHook = func(network, address string, timeout time.Duration) (net.Conn, error) {
			return w.Net.Dial(network, address, timeout)
		}
		var tr gotit.Tracker
		var err error
		c.Call("new tracker", func() { tr, err = tracker.New(u, zap.NewNop()) })
		if err != nil {
			c.Fail("%s is refused: %v", u, err)
		}
		var last *int
		if !none {
			for _, iv := range seq {
				if _, err := tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{}); err != nil {
					c.Fail("announce fails: %v", err)
				}
				last = iv
			}
		}
		lo, hi := bounds(last)
		what := "none"
		if last != nil {
			what = fmt.Sprint(*last)
		}
		// a full wait
		if hi < math.MaxInt64 {
			t0 := time.Now()
			var werr error
			c.Call("wait", func() { werr = tr.WaitInterval(context.Background()) })
			if d := time.Since(t0); werr != nil || d < lo || d > hi {
				c.Fail("%s asked for interval %s: waited %s, error %v", u, what, d, werr)
			}
		}
		// a wait that is cancelled
		at := time.Duration(r.Int64N(int64(lo)))
		ctx, cancel := context.WithCancel(context.Background())
		time.AfterFunc(at, cancel)
		t0 := time.Now()
		werr := tr.WaitInterval(ctx)
		if d := time.Since(t0); werr == nil || d < at || d > at+200*time.Millisecond {
			c.Fail("%s asked for interval %s: wait cancelled after %s ends after %s, error %v", u, what, at, d, werr)
		}
		// already cancelled
		t0 = time.Now()
		werr = tr.WaitInterval(ctx)
		if d := time.Since(t0); werr == nil || d > 200*time.Millisecond {
			c.Fail("%s asked for interval %s: wait with a cancelled context ends after %s, error %v", u, what, d, werr)
		}
		cancel()
		_ = tr.Close()
		w.Net.Shutdown()
		c.Eval(1)
		c.Count("waits measured", 3)
		c.Distinct(u, what, at)
	})
	_ = vnet.New
}
