package c14

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/download"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C14",
		mon.Family{Name: "moment", Quick: 3000, Thorough: 40000, Fn: func(c *mon.Case) { run(c, opts{}) }},
		mon.Family{Name: "event", Quick: 3000, Thorough: 40000, Fn: func(c *mon.Case) { run(c, opts{event: true}) }},
		mon.Family{Name: "honest", Quick: 2400, Thorough: 30000, Fn: func(c *mon.Case) { run(c, opts{honest: true, event: c.R.IntN(2) == 0}) }},
		mon.Family{Name: "bigpieces", Quick: 240, Thorough: 3000, Fn: func(c *mon.Case) { run(c, opts{honest: true, big: true, event: c.R.IntN(2) == 0}) }},
		mon.Family{Name: "start", Quick: 800, Thorough: 8000, Fn: func(c *mon.Case) { run(c, opts{early: true}) }},
		mon.Family{Name: "end", Quick: 800, Thorough: 8000, Fn: func(c *mon.Case) { run(c, opts{honest: true, late: true}) }},
		mon.Family{Name: "stuck", Quick: 1200, Thorough: 12000, Fn: func(c *mon.Case) { run(c, opts{stuck: true}) }},
		mon.Family{Name: "backlog", Quick: 160, Thorough: 1600, Fn: backlog},
		mon.Family{Name: "flood", Quick: 120, Thorough: 1200, Fn: flood},
	)
}

type opts struct {
	event, honest, big, early, late, stuck bool
}

const bound = 15 * time.Second

var urls = []string{"http://tracker.test/announce", "udp://udp.test:1337", "http://hang.test/x", "udp://dead.test:9", "ftp://no.test", "udp://mute.test:7"}

// ways of stopping; each may be used several times and at once.
const (
	cancelCtx = iota
	stopMng
	bothAtOnce
	cancelMany
	stopMany
	stopThenCancel
	ways
)

var wayNames = []string{"cancel", "stop", "cancel and stop at once", "cancel from many goroutines", "stop from many goroutines", "stop, then cancel"}

type watcher struct {
	mu   sync.Mutex
	spec *swarm.Spec
	done map[int]time.Time // when the last block of a piece was read
}

// attach notes when the client has read all blocks of a piece on a session.
func (wt *watcher) attach(s *vnet.Session, event func()) {
	var in, out ref.Splitter
	got := map[int]map[int]bool{}
	sizes := map[[2]int]int{}
	s.Client.OnWrite = func(b []byte) {
		wt.mu.Lock()
		_, fr, _ := out.Feed(b, 1<<20)
		for _, f := range fr {
			if f.Type == ref.Request {
				sizes[[2]int{int(f.At(0)), int(f.At(1))}] = int(f.At(2))
			}
		}
		wt.mu.Unlock()
		event()
	}
	s.Client.OnRead = func(b []byte) {
		wt.mu.Lock()
		_, fr, _ := in.Feed(b, 1<<22)
		for _, f := range fr {
			if f.Type != ref.Piece {
				continue
			}
			i, off := int(f.At(0)), int(f.At(1))
			if i >= wt.spec.NumPieces() || sizes[[2]int{i, off}] != len(f.Payload)-8 {
				continue
			}
			if got[i] == nil {
				got[i] = map[int]bool{}
			}
			got[i][off] = true
			sum := 0
			for o := range got[i] {
				sum += sizes[[2]int{i, o}]
			}
			if sum == wt.spec.PieceSize(i) {
				if _, ok := wt.done[i]; !ok {
					wt.done[i] = time.Now()
				}
			}
		}
		wt.mu.Unlock()
		event()
	}
}

func run(c *mon.Case, o opts) {
	r := c.R
	c.LeakIsViolation = true
	n := 1 + r.IntN(len(urls))
	if o.honest {
		n = 1 + r.IntN(2)
	}
	used := append([]string(nil), urls[:n]...)
	r.Shuffle(n, func(i, j int) { used[i], used[j] = used[j], used[i] })
	sh := swarm.Shape{Trackers: used, MaxPieces: 12, Big: o.big}
	if o.big {
		sh.MaxPieces = 4
	}
	spec := swarm.Gen(r, sh)
	np := spec.NumPieces()

	var scripts []*swarm.Script
	for i := 0; i < 1+r.IntN(5); i++ {
		addr := swarm.Addr(i + 1)
		var s *swarm.Script
		switch {
		case o.honest:
			s = swarm.Honest(r, addr, swarm.RandHave(r, np))
			if i == 0 && o.late {
				s.Have = swarm.All(np)
			}
			s.Chokes = nil
			if r.IntN(2) == 0 {
				s.Delay = time.Duration(r.IntN(150)) * time.Millisecond
			}
		case o.stuck:
			s = swarm.Honest(r, addr, swarm.All(np))
			s.Honest = false
			switch r.IntN(7) {
			case 0:
				s.Blackhole = true
			case 1:
				s.HS = swarm.HSSilent
			case 2:
				s.Unchoke = -1
				s.UnchokeFirst = false
			case 3:
				s.WriteCap = -1 // nothing can be written
			case 4:
				s.WriteCap = 68 + r.IntN(10)
			case 5:
				s.Answers = func(int, *rand.Rand) int { return swarm.Stall }
			case 6:
				s.Answers = func(int, *rand.Rand) int { return swarm.CutStall }
			}
		case r.IntN(2) == 0:
			s = swarm.Honest(r, addr, swarm.RandHave(r, np))
		default:
			s = swarm.Hostile(r, addr, swarm.RandHave(r, np))
		}
		scripts = append(scripts, s)
	}
	way := r.IntN(ways)
	horizon := []time.Duration{10 * time.Millisecond, time.Second, 5 * time.Second, 40 * time.Second}[r.IntN(4)]
	when := time.Duration(r.Int64N(int64(horizon)))
	if r.IntN(4) == 0 {
		when = when.Round([]time.Duration{100 * time.Millisecond, 200 * time.Millisecond, 500 * time.Millisecond, time.Second}[r.IntN(4)])
	}
	target := int64(1 + r.IntN([]int{5, 30, 120}[r.IntN(3)]))
	if o.early {
		when = 0
	}
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		wt := &watcher{spec: spec, done: map[int]time.Time{}}
		trigger := make(chan struct{})
		var events atomic.Int64
		w.Net.OnSession = func(s *vnet.Session) {
			wt.attach(s, func() {
				if events.Add(1) == target && o.event {
					close(trigger)
				}
			})
		}
		var addrs []netip.AddrPort
		for _, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		for _, u := range used {
			t := &swarm.Tracker{URL: u, Answer: func(int, *swarm.Announce) swarm.Reply {
				return swarm.Reply{Peers: addrs, Interval: swarm.Int(1 + r.IntN(30))}
			}}
			if strings.Contains(u, "mute") {
				kind := r.IntN(3)
				t.Connect = func(int) swarm.Reply {
					return []swarm.Reply{{Err: true}, {Failure: "not here"}, {Delay: time.Second}}[kind]
				}
			}
			iv := swarm.Int(1 + r.IntN(30))
			delay := time.Duration(r.IntN(300)) * time.Millisecond
			bad := r.IntN(6)
			t.Answer = func(k int, _ *swarm.Announce) swarm.Reply {
				if strings.Contains(u, "hang") {
					return swarm.Reply{Hang: true}
				}
				if k < bad-3 {
					return swarm.Reply{Err: true}
				}
				return swarm.Reply{Peers: addrs, Interval: iv, Delay: delay}
			}
			if !strings.Contains(u, "dead") && !strings.HasPrefix(u, "ftp") {
				w.AddTracker(t)
			}
		}
		c.Logf("%s", spec)
		w.Load()
		m := download.NewMng(w.T, zap.NewNop(), 1+r.IntN(8), 6881)
		w.M = m
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()

		var stops sync.WaitGroup
		many := func(k int, fn func()) {
			for i := 0; i < k; i++ {
				stops.Add(1)
				go func() {
					defer stops.Done()
					fn()
				}()
			}
		}
		stop := func() {
			switch way {
			case cancelCtx:
				cancel()
			case stopMng:
				m.Stop()
			case bothAtOnce:
				many(1, cancel)
				many(1, m.Stop)
			case cancelMany:
				many(4, cancel)
			case stopMany:
				many(4, m.Stop)
			case stopThenCancel:
				m.Stop()
				cancel()
			}
		}
		order := ""
		var stopped chan struct{} // the early stop is over
		if o.early {
			switch r.IntN(3) {
			case 0:
				order = "before the download; "
				stop()
				stops.Wait()
			case 1:
				order = "as the download starts; "
				early := make(chan struct{})
				go func() {
					defer close(early)
					stop()
				}()
				stopped = early
			}
		}
		done := make(chan struct{})
		var ended time.Time
		go func() {
			_ = m.Download(ctx)
			ended = time.Now()
			close(done)
		}()
		timer := time.NewTimer(when)
		var at time.Time
		switch {
		case o.late:
			select {
			case <-done:
			case <-time.After(5 * time.Minute):
			}
			at = time.Now()
		case o.event:
			limit := time.NewTimer(40 * time.Second)
			select {
			case <-trigger:
			case <-limit.C:
			}
			limit.Stop()
			at = time.Now()
		default:
			<-timer.C
			at = time.Now()
		}
		timer.Stop()
		stop()
		c.Logf("stopped (%s) %s%s after the start", wayNames[way], order, at.Sub(w.Began()))
		select {
		case <-done:
		case <-time.After(bound):
			for _, g := range mon.GotitGoroutines() {
				c.Logf("%s", g)
			}
			c.Report("download has not returned %s after it was stopped (%s) %s%s after the start\n%s", bound, wayNames[way], order, at.Sub(w.Began()), spec)
			panicOut(w)
			return
		}
		if stopped != nil {
			<-stopped
		}
		stops.Wait()
		m.Stop()
		m.Stop()
		cancel()
		time.Sleep(3 * time.Second)
		synctest.Wait()
		if left := mon.GotitGoroutines(); len(left) > 0 {
			c.Report("%d goroutines are left 3 s after the download (%s %s%s after the start) returned:\n%s", len(left), wayNames[way], order, at.Sub(w.Began()), strings.Join(left, "\n\n"))
			panicOut(w)
			return
		}
		if s, p := w.Net.Open(); s+p > 0 {
			c.Report("%d peer and %d tracker connections are open after the download was stopped (%s %s%s after the start)\n%s", s, p, wayNames[way], order, at.Sub(w.Began()), spec)
			panicOut(w)
			return
		}
		stored := 0
		if o.honest {
			img, err := spec.Disk(dir)
			if err != nil {
				c.Fail("%v", err)
			}
			on := spec.OnDisk(img)
			wt.mu.Lock()
			for i, t := range wt.done {
				if t.Before(at) {
					stored++
					if !on[i] {
						wt.mu.Unlock()
						c.Fail("piece %d was received %s before the stop (%s, %s after the start) and is not on disk\n%s", i, at.Sub(t), wayNames[way], at.Sub(w.Began()), spec)
					}
				}
			}
			wt.mu.Unlock()
		}
		w.Net.Shutdown()
		close(w.HTTP.Stopping())
		_ = w.T.Close()
		opened, _ := w.Net.Stats()
		c.Eval(1)
		c.Count("downloads stopped", 1)
		c.Count("stopped by "+wayNames[way], 1)
		c.Count("sessions seen", opened)
		c.Count("pieces verified before the stop", stored)
		c.Distinct(wayNames[way], order, at.Sub(w.Began()), opened, events.Load(), stored)
		c.Sample("%s %s%s after the start, %d sessions, %d pieces before: returned after %s", wayNames[way], order, at.Sub(w.Began()), opened, stored, ended.Sub(at))
	})
}

// panicOut releases what it can, the violation is already reported.
func panicOut(w *swarm.World) {
	w.Net.Shutdown()
	close(w.HTTP.Stopping())
}

// flood stops while the pieces of many fast peers pour in.
func flood(c *mon.Case) {
	r := c.R
	c.LeakIsViolation = true
	spec := swarm.NewSpec(r, "flood", r.IntN(2) == 0, []swarm.File{{Path: []string{"f"}, Length: 3000}}, 1, urls[:1], nil)
	np := spec.NumPieces()
	dir, clean := c.Dir()
	defer clean()
	after := int64(100 + r.IntN(8000))
	way := r.IntN(ways)
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var events atomic.Int64
		trigger := make(chan struct{})
		w.Net.OnSession = func(s *vnet.Session) {
			s.Client.OnRead = func([]byte) {
				if events.Add(1) == after {
					close(trigger)
				}
			}
		}
		var addrs []netip.AddrPort
		for i := 0; i < 20; i++ {
			s := &swarm.Script{Addr: swarm.Addr(i + 1).String(), Have: swarm.All(np), Honest: true, Seed: r.Uint64()}
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
		}
		w.AddTracker(&swarm.Tracker{URL: urls[0], Answer: func(int, *swarm.Announce) swarm.Reply { return swarm.Reply{Peers: addrs, Interval: swarm.Int(5)} }})
		w.Start(30, 6881)
		select {
		case <-trigger:
		case <-w.Done():
		}
		if way == cancelCtx || way == cancelMany {
			w.Cancel()
		} else {
			go w.M.Stop()
			w.M.Stop()
		}
		if !w.Wait(bound) {
			c.Report("download has not returned %s after it was stopped in the middle of a flood of pieces", bound)
			panicOut(w)
			return
		}
		w.M.Stop()
		time.Sleep(3 * time.Second)
		synctest.Wait()
		if left := mon.GotitGoroutines(); len(left) > 0 {
			c.Report("%d goroutines are left:\n%s", len(left), strings.Join(left, "\n\n"))
			panicOut(w)
			return
		}
		if s, p := w.Net.Open(); s+p > 0 {
			c.Report("%d peer and %d tracker connections are left", s, p)
		}
		img, err := spec.Disk(dir)
		if err != nil {
			c.Fail("%v", err)
		}
		k := 0
		for _, on := range spec.OnDisk(img) {
			if on {
				k++
			}
		}
		w.Finish()
		c.Eval(1)
		c.Count("downloads stopped", 1)
		c.Distinct(fmt.Sprint(after), k)
	})
}

// backlog stops while storage is behind: pieces over very many small files come
// in faster than they can be written. A session that asks for its next piece
// has delivered the one before.
func backlog(c *mon.Case) {
	r := c.R
	c.LeakIsViolation = true
	pieceLen := 400 + r.IntN(800)
	np := 20 + r.IntN(60)
	var files []swarm.File
	for total := 0; total < np*pieceLen; total += 3 {
		files = append(files, swarm.File{Path: []string{fmt.Sprintf("f%d", len(files))}, Length: 3})
		if len(files) >= 400 {
			files[len(files)-1].Length = np*pieceLen - total
			break
		}
	}
	// the first pieces span all the small files
	spec := swarm.NewSpec(r, "backlog", false, files, pieceLen, urls[:1], nil)
	np = spec.NumPieces()
	peers := 4 + r.IntN(12)
	after := 1 + r.IntN(max(1, np-2))
	way := r.IntN(ways)
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var mu sync.Mutex
		var before []int // verified when the stop was triggered
		verified := map[int]bool{}
		trigger := make(chan struct{})
		w.Net.OnSession = func(s *vnet.Session) {
			var in, out ref.Splitter
			last := -1
			read := map[int]bool{}
			s.Client.OnRead = func(b []byte) {
				mu.Lock()
				defer mu.Unlock()
				_, fr, _ := in.Feed(b, 1<<22)
				for _, f := range fr {
					if f.Type == ref.Piece && len(f.Payload) > 8 {
						read[int(f.At(0))] = true
					}
				}
			}
			s.Client.OnWrite = func(b []byte) {
				mu.Lock()
				defer mu.Unlock()
				_, fr, _ := out.Feed(b, 1<<20)
				for _, f := range fr {
					if f.Type != ref.Request {
						continue
					}
					if i := int(f.At(0)); i != last {
						if last >= 0 && read[last] {
							verified[last] = true
							if len(verified) == after {
								for p := range verified {
									before = append(before, p)
								}
								close(trigger)
							}
						}
						last = i
					}
				}
			}
		}
		var addrs []netip.AddrPort
		for i := 0; i < peers; i++ {
			s := &swarm.Script{Addr: swarm.Addr(i + 1).String(), Have: swarm.All(np), Honest: true, Seed: r.Uint64()}
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
		}
		w.AddTracker(&swarm.Tracker{URL: urls[0], Answer: func(int, *swarm.Announce) swarm.Reply { return swarm.Reply{Peers: addrs, Interval: swarm.Int(5)} }})
		w.Start(30, 6881)
		select {
		case <-trigger:
		case <-w.Done():
		}
		if way == cancelCtx || way == cancelMany {
			w.Cancel()
		} else {
			w.M.Stop()
		}
		if !w.Wait(bound) {
			c.Report("download has not returned %s after it was stopped (%s) with pieces waiting for storage", bound, wayNames[way])
			panicOut(w)
			return
		}
		// as the program does when the download has returned
		w.M.Stop()
		img, err := spec.Disk(dir)
		_ = w.T.Close()
		if err != nil {
			c.Fail("%v", err)
		}
		on := spec.OnDisk(img)
		mu.Lock()
		before = append([]int(nil), before...)
		mu.Unlock()
		w.Finish()
		for _, p := range before {
			if !on[p] {
				c.Fail("piece %d was verified before the stop (%s) and is not on disk when the download has returned and the manager is stopped; %d pieces were verified\n%d pieces of %d bytes over %d files", p, wayNames[way], len(before), np, pieceLen, len(files))
			}
		}
		c.Eval(1)
		c.Count("downloads stopped", 1)
		c.Count("pieces verified before the stop", len(before))
		c.Distinct("backlog", after, len(before), peers, np)
	})
}
