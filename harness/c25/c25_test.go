// Package c25 runs several downloads in one process and watches that none of them
// notices the others.
package c25

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"strconv"
	"sync"
	"testing"
	"time"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C25",
		mon.Family{Name: "together", Quick: 700, Thorough: 12000, Fn: func(c *mon.Case) { world(c, opts{}) }},
		mon.Family{Name: "big", Quick: 60, Thorough: 900, Fn: func(c *mon.Case) { world(c, opts{big: true}) }},
		mon.Family{Name: "sequence", Quick: 500, Thorough: 8000, Fn: func(c *mon.Case) { world(c, opts{sequence: true}) }},
		mon.Family{Name: "crowd", Quick: 40, Thorough: 600, Fn: func(c *mon.Case) { world(c, opts{crowd: true}) }},
		mon.Family{Name: "beside", Quick: 500, Thorough: 8000, Fn: beside},
	)
}

const bound = 15 * time.Second // a stopped download returns within this

var urls = []string{"http://a.test/announce", "udp://b.test:1337", "http://c.test/announce?k=1", "udp://d.test:80", "http://e.test/x"}

type opts struct{ big, sequence, crowd bool }

// entry is one download of a world.
type entry struct {
	n       int
	spec    *swarm.Spec
	dir     string
	limit   int
	port    int
	start   time.Duration // after the beginning, or after the one before has returned
	cancel  time.Duration // after its start; zero: never
	fin     time.Duration // a download that is not cancelled finishes within this
	w       *swarm.World
	active  bool
	began   time.Time
	ended   time.Time
	firsts  int // announces that carry nothing downloaded yet
	total   int // announces
	stopped bool
}

// group is everything that concerns one torrent.
type group struct {
	spec    *swarm.Spec
	entries []*entry
	urls    map[string]bool
	addrs   []netip.AddrPort
	open    map[string]int
	total   int
	opened  int
	peak    int
}

// mind watches a world.
type mind struct {
	c      *mon.Case
	mu     sync.Mutex
	groups map[string]*group
	at     map[string]map[string]bool // address: hashes it was given out for
	bad    string
	anns   int
	reqs   int
}

func (m *mind) fail(f string, a ...any) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(f, a...)
	}
}

// name of a torrent for messages.
func (m *mind) name(hash string) string {
	if g := m.groups[hash]; g != nil {
		return g.spec.String()
	}
	return fmt.Sprintf("unknown torrent %x", hash)
}

// session follows one connection: what torrent the client opens it for.
func (m *mind) session(s *vnet.Session) {
	var mu sync.Mutex
	var out ref.Splitter
	hash := ""
	over := false
	prev := s.Client.OnClose
	s.Client.OnWrite = func(b []byte) {
		mu.Lock()
		defer mu.Unlock()
		if over {
			return
		}
		hs, frames, _ := out.Feed(b, 1<<21)
		if hs != nil {
			hash = string(hs[28:48])
			m.opened(s.Addr, hash)
		}
		for _, f := range frames {
			if f.Type == ref.Request && len(f.Payload) == 12 {
				m.request(s.Addr, hash, int(f.At(0)), int(f.At(1)), int(f.At(2)))
			}
		}
	}
	s.Client.OnClose = func() {
		if prev != nil {
			prev()
		}
		mu.Lock()
		defer mu.Unlock()
		if !over && hash != "" {
			m.closed(s.Addr, hash)
		}
		over = true
	}
}

func (m *mind) opened(addr, hash string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	g := m.groups[hash]
	if g == nil || !m.at[addr][hash] {
		m.fail("a session with %s is opened for %s, which that address was never given out for", addr, m.name(hash))
		return
	}
	g.open[addr]++
	g.total++
	g.opened++
	g.peak = max(g.peak, g.total)
	active, limit := 0, 0
	for _, e := range g.entries {
		if e.active {
			active++
			limit += e.limit
		}
	}
	if active == 0 {
		m.fail("a session with %s is opened for %s, of which no download is running", addr, g.spec)
	} else if g.open[addr] > active {
		m.fail("%d sessions with %s for %s, of which %d downloads are running", g.open[addr], addr, g.spec, active)
	} else if g.total > limit {
		m.fail("%d sessions for %s, whose downloads may have %d", g.total, g.spec, limit)
	}
}

// request is asked of a peer: it has to make sense for the session's torrent.
func (m *mind) request(addr, hash string, index, begin, length int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reqs++
	g := m.groups[hash]
	if g == nil {
		return
	}
	if index >= g.spec.NumPieces() || length > swarm.BlockLimit || begin+length > g.spec.PieceSize(index) {
		m.fail("%s is asked for %d bytes at offset %d of piece %d in a session for %s", addr, length, begin, index, g.spec)
	}
}

func (m *mind) closed(addr, hash string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if g := m.groups[hash]; g != nil {
		g.open[addr]--
		g.total--
	}
}

// announce judges an announce and returns the torrent.
func (m *mind) announce(u string, a *swarm.Announce) *group {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.anns++
	g := m.groups[a.Hash]
	if g == nil || !g.urls[u] {
		m.fail("tracker %s is announced %s, which does not list it", u, m.name(a.Hash))
		return nil
	}
	num := func(s, what string) int {
		n, err := strconv.ParseUint(s, 10, 62)
		if err != nil {
			m.fail("announce of %s to %s says %s %q", g.spec, u, what, s)
			return 0
		}
		return int(n)
	}
	down, up, left := num(a.Downloaded, "downloaded"), num(a.Uploaded, "uploaded"), num(a.Left, "left")
	var of *entry
	for _, e := range g.entries {
		if strconv.Itoa(e.port) == a.Port {
			of = e
		}
	}
	switch {
	case of == nil:
		m.fail("announce of %s to %s carries port %s, which is none of its downloads' ports", g.spec, u, a.Port)
		return g
	case !of.active:
		m.fail("announce of %s to %s for download %d, which is not running", g.spec, u, of.n)
	case up != 0:
		m.fail("announce of %s to %s says %d uploaded", g.spec, u, up)
	case down > g.spec.Length:
		m.fail("announce of download %d of %s to %s says %d of %d bytes downloaded", of.n, g.spec, u, down, g.spec.Length)
	case left > g.spec.Length:
		m.fail("announce of download %d of %s to %s says %d of %d bytes left", of.n, g.spec, u, left, g.spec.Length)
	case of.total == 0 && (down != 0 || left != g.spec.Length):
		m.fail("download %d of %s has just begun and announces %d downloaded and %d left to %s, of %d bytes", of.n, g.spec, down, left, u, g.spec.Length)
	}
	of.total++
	if down == 0 {
		of.firsts++
	}
	return g
}

func (m *mind) begin(e *entry) {
	m.mu.Lock()
	defer m.mu.Unlock()
	e.active = true
	e.began = time.Now()
}

// over is called when the download has returned.
func (m *mind) over(e *entry) {
	m.mu.Lock()
	defer m.mu.Unlock()
	e.active = false
	e.ended = time.Now()
	g := m.groups[string(e.spec.Hash[:])]
	active, limit := 0, 0
	for _, o := range g.entries {
		if o.active {
			active++
			limit += o.limit
		}
	}
	if g.total > limit {
		m.fail("download %d of %s has returned and %d sessions for it are still open, of which other downloads of it may have %d", e.n, e.spec, g.total, limit)
	}
}

func world(c *mon.Case, o opts) {
	r := c.R
	k := 2 + r.IntN(4)
	if o.crowd {
		k = 12 + r.IntN(30)
	}
	m := &mind{c: c, groups: map[string]*group{}, at: map[string]map[string]bool{}}
	var list []*entry
	var groups []*group
	for i := 0; i < k; i++ {
		var g *group
		if i > 0 && r.IntN(4) == 0 {
			g = groups[r.IntN(len(groups))] // another download of the same torrent
		} else {
			var us []string
			for _, j := range r.Perm(len(urls))[:1+r.IntN(3)] {
				us = append(us, urls[j])
			}
			sh := swarm.Shape{Trackers: us, MaxPieces: 15, MaxPieceLen: 700, Big: o.big}
			if o.big {
				sh.MaxPieces = 4
			}
			spec := swarm.Gen(r, sh)
			if m.groups[string(spec.Hash[:])] != nil {
				continue
			}
			g = &group{spec: spec, urls: map[string]bool{}, open: map[string]int{}}
			for _, u := range us {
				g.urls[u] = true
			}
			groups = append(groups, g)
			m.groups[string(spec.Hash[:])] = g
		}
		e := &entry{n: i, spec: g.spec, port: 7000 + i, start: time.Duration(r.IntN(20000)) * time.Millisecond}
		if r.IntN(3) == 0 {
			e.start = 0
		}
		if r.IntN(5) == 0 {
			e.cancel = time.Duration(1+r.IntN(20000)) * time.Millisecond
		}
		g.entries = append(g.entries, e)
		list = append(list, e)
	}
	// peers: most have one torrent, some have several at one address
	hosts := map[netip.AddrPort][]*swarm.Peer{}
	var scripts []*swarm.Script
	var order []netip.AddrPort
	next := 1
	for _, g := range groups {
		n := g.spec.NumPieces()
		peers := 1 + r.IntN(4)
		for j := 0; j < peers; j++ {
			have := swarm.RandHave(r, n)
			if j == 0 {
				have = swarm.All(n)
			}
			a := swarm.Addr(next)
			if len(order) > 0 && r.IntN(3) == 0 {
				a = order[r.IntN(len(order))]
				taken := false
				for _, p := range hosts[a] {
					taken = taken || p.Spec == g.spec
				}
				if taken {
					a = swarm.Addr(next)
				}
			}
			if hosts[a] == nil {
				order = append(order, a)
				next++
			}
			var s *swarm.Script
			if j == 0 || r.IntN(3) > 0 {
				s = swarm.Honest(r, a, have)
			} else {
				s = swarm.Hostile(r, a, have)
				most := 1 + r.IntN(3)
				s.Refuse = func(attempt int) bool { return attempt >= most }
			}
			s.DialDelay = 0
			scripts = append(scripts, s)
			hosts[a] = append(hosts[a], &swarm.Peer{Script: s, Spec: g.spec})
			g.addrs = append(g.addrs, a)
			if m.at[a.String()] == nil {
				m.at[a.String()] = map[string]bool{}
			}
			m.at[a.String()][string(g.spec.Hash[:])] = true
		}
		for _, e := range g.entries {
			e.limit = peers + r.IntN(2)
			e.fin = 10*time.Minute + time.Duration(g.spec.Blocks())*10*time.Second + time.Duration(peers*3*k)*2*time.Minute
		}
	}
	for _, e := range list {
		dir, clean := c.Dir()
		defer clean()
		e.dir = dir
	}
	c.Bubble(func() {
		base := swarm.New(c, list[0].spec, list[0].dir)
		base.Net.OnSession = m.session
		for _, s := range scripts {
			c.Logf("%s", s.Describe())
		}
		for _, a := range order {
			base.Net.Add(a.String(), swarm.Shared(hosts[a], func(addr string, hs []byte) {}))
		}
		iv := 3 + r.IntN(20)
		seed := r.Uint64()
		for ui, u := range urls {
			base.AddTracker(&swarm.Tracker{URL: u, Answer: func(n int, a *swarm.Announce) swarm.Reply {
				g := m.announce(u, a)
				if g == nil {
					return swarm.Reply{Failure: "unregistered torrent"}
				}
				q := rand.New(rand.NewPCG(seed+uint64(ui), uint64(n)))
				if q.IntN(6) == 0 {
					return swarm.Reply{Failure: "busy"}
				}
				rep := swarm.Reply{Peers: append([]netip.AddrPort(nil), g.addrs...), Interval: swarm.Int(iv), Dict: q.IntN(2) == 0}
				q.Shuffle(len(rep.Peers), func(i, j int) { rep.Peers[i], rep.Peers[j] = rep.Peers[j], rep.Peers[i] })
				if q.IntN(2) == 0 {
					rep.Delay = time.Duration(q.IntN(2000)) * time.Millisecond
				}
				return rep
			}})
		}
		for _, e := range list {
			c.Logf("download %d: %x %s limit %d port %d start %s cancel %s", e.n, e.spec.Hash, e.spec, e.limit, e.port, e.start, e.cancel)
		}
		var wg sync.WaitGroup
		if o.sequence {
			for _, e := range list {
				time.Sleep(e.start / 4)
				m.run(base, e)
			}
		} else {
			for _, e := range list {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(e.start)
					m.run(base, e)
				}()
			}
		}
		wg.Wait()
		base.Finish()
		m.mu.Lock()
		bad := m.bad
		m.mu.Unlock()
		if bad != "" {
			trace(c, base)
			c.Fail("%s", bad)
		}
		c.Eval(1)
		c.Count("downloads", len(list))
		c.Count("announces judged", m.anns)
		c.Count("requests judged", m.reqs)
		sig := ""
		for _, g := range groups {
			c.Count("sessions", g.opened)
			c.Count("torrents", 1)
			if len(g.entries) > 1 {
				c.Count("torrents downloaded more than once", 1)
			}
			sig += fmt.Sprint(g.spec, g.opened, g.peak, len(g.entries))
		}
		for _, e := range list {
			sig += fmt.Sprint(e.total, e.firsts, e.stopped)
			if e.stopped {
				c.Count("downloads stopped", 1)
			} else {
				c.Count("downloads finished with the exact content", 1)
			}
		}
		if o.sequence {
			c.Count("sequences", 1)
		} else {
			overlap := 0
			for i, a := range list {
				for _, b := range list[:i] {
					if a.began.Before(b.ended) && b.began.Before(a.ended) {
						overlap++
					}
				}
			}
			c.Count("pairs of downloads running at once", overlap)
		}
		c.Distinct(sig)
		c.Sample("%d downloads of %d torrents, %d announces, %d peers", len(list), len(groups), m.anns, len(order))
	})
}

// run is one download from start to end.
func (m *mind) run(base *swarm.World, e *entry) {
	var err error
	e.w = base.Another(e.spec, e.dir)
	e.w.T, err = e.spec.Load(e.dir)
	if err != nil {
		m.mu.Lock()
		m.fail("valid torrent is refused beside others: %v\n%s", err, e.spec)
		m.mu.Unlock()
		return
	}
	m.begin(e)
	e.w.StartLoaded(e.limit, e.port)
	var stop <-chan time.Time
	if e.cancel > 0 {
		stop = time.After(e.cancel)
	}
	select {
	case <-e.w.Done():
	case <-stop:
		e.stopped = true
		if e.n%2 == 0 {
			e.w.Cancel()
		} else {
			e.w.M.Stop()
		}
		if !e.w.Wait(bound) {
			m.mu.Lock()
			m.fail("download %d of %s has not returned %s after it was stopped", e.n, e.spec, bound)
			m.mu.Unlock()
		}
	case <-time.After(e.fin):
		img, _ := e.spec.Disk(e.dir)
		on := e.spec.OnDisk(img)
		m.mu.Lock()
		m.fail("download %d of %s did not finish within %s of virtual time although a peer has every piece, beside others; on disk: %v", e.n, e.spec, e.fin, on)
		m.mu.Unlock()
	}
	select {
	case <-e.w.Done():
		m.over(e)
		if e.stopped && !e.w.T.Done() {
			// what others did is not in its files
			img, err := e.spec.Disk(e.dir)
			if err == nil {
				at := 0
				for i := 0; i < e.spec.NumPieces(); i++ {
					p := e.spec.Piece(i)
					got := img[min(at, len(img)):min(at+len(p), len(img))]
					if !bytes.Equal(got, p) && len(bytes.Trim(got, "\x00")) > 0 {
						m.mu.Lock()
						m.fail("piece %d of stopped download %d of %s holds foreign bytes", i, e.n, e.spec)
						m.mu.Unlock()
					}
					at += len(p)
				}
			}
			break
		}
		if !e.w.T.Done() {
			m.mu.Lock()
			m.fail("download %d of %s returned by itself and is not complete", e.n, e.spec)
			m.mu.Unlock()
		} else if err := e.spec.Complete(e.dir); err != nil {
			m.mu.Lock()
			m.fail("finished download %d of %s has wrong content: %v", e.n, e.spec, err)
			m.mu.Unlock()
		}
	default:
	}
	e.w.End()
}

// trace writes down what the network and the trackers saw.
func trace(c *mon.Case, base *swarm.World) {
	for i, e := range base.Net.Events() {
		if i > 200 {
			break
		}
		c.Logf("+%s %s %s", e.At.Sub(base.Began()), e.Kind, e.Addr)
	}
	for _, t := range base.Trackers {
		for i, a := range t.Seen() {
			if i > 60 {
				break
			}
			c.Logf("+%s announce to %s of %x port %s down %s left %s", a.At.Sub(base.Began()), t.URL, a.Hash, a.Port, a.Downloaded, a.Left)
		}
	}
}

// beside runs one download whose peers are prompt beside others that are stuck in
// every way there is.
func beside(c *mon.Case) {
	r := c.R
	m := &mind{c: c, groups: map[string]*group{}, at: map[string]map[string]bool{}}
	add := func(us []string, sh swarm.Shape) *group {
		sh.Trackers = us
		g := &group{spec: swarm.Gen(r, sh), urls: map[string]bool{}, open: map[string]int{}}
		for _, u := range us {
			g.urls[u] = true
		}
		m.groups[string(g.spec.Hash[:])] = g
		return g
	}
	u := urls[r.IntN(2)]
	ours := add([]string{u}, swarm.Shape{MaxPieces: 15, MaxPieceLen: 700})
	victim := &entry{n: 0, spec: ours.spec, port: 7000, limit: 3 + r.IntN(3), start: time.Duration(3+r.IntN(90)) * time.Second}
	ours.entries = []*entry{victim}
	stuck := 1 + r.IntN(5)
	var list []*entry
	kinds := ""
	type remote struct {
		s *swarm.Script
		g *group
	}
	var remotes []remote
	give := func(g *group, a netip.AddrPort) {
		g.addrs = append(g.addrs, a)
		if m.at[a.String()] == nil {
			m.at[a.String()] = map[string]bool{}
		}
		m.at[a.String()][string(g.spec.Hash[:])] = true
	}
	next := 1
	unchoke := time.Duration(0) // slow enough for reads to time out, at times
	if r.IntN(2) == 0 {
		unchoke = time.Duration(1+r.IntN(4000)) * time.Millisecond
	}
	for i := 0; i < 1+r.IntN(3); i++ {
		a := swarm.Addr(next)
		next++
		s := &swarm.Script{Addr: a.String(), Have: swarm.All(ours.spec.NumPieces()), Honest: true, Seed: r.Uint64(), Delay: time.Duration(r.IntN(20)) * time.Millisecond, Unchoke: unchoke}
		remotes = append(remotes, remote{s, ours})
		give(ours, a)
	}
	hang := map[string]bool{}
	for i := 0; i < stuck; i++ {
		// the stuck ones share the victim's tracker in part
		us := []string{urls[r.IntN(len(urls))]}
		if r.IntN(2) == 0 {
			us = append(us, "http://hang.test/"+strconv.Itoa(i))
			hang[us[len(us)-1]] = true
			kinds += "t"
		}
		if r.IntN(2) == 0 {
			us = append(us, "udp://hang"+strconv.Itoa(i)+".test:80")
			hang[us[len(us)-1]] = true
			kinds += "u"
		}
		g := add(us, swarm.Shape{MaxPieces: 15, MaxPieceLen: 700})
		n := g.spec.NumPieces()
		for j := 0; j < 1+r.IntN(30); j++ {
			a := swarm.Addr(next)
			next++
			common := j < len(ours.addrs) && r.IntN(2) == 0
			if common {
				a = ours.addrs[j]
			}
			s := swarm.Honest(r, a, swarm.All(n))
			s.Chokes, s.Honest, s.DialDelay = nil, false, 0
			kind := r.IntN(7)
			if common {
				// the same address answers the prompt download well
				kind = []int{1, 2, 3, 5}[r.IntN(4)]
				kinds += "c"
			}
			kinds += strconv.Itoa(kind)
			switch kind {
			case 0:
				s.Blackhole = true
			case 1:
				s.HS = swarm.HSSilent
			case 2:
				s.Unchoke = -1
			case 3:
				s.Answers = func(int, *rand.Rand) int { return swarm.Stall }
			case 4:
				s.MaxRead, s.WriteCap = 0, 1+r.IntN(40)
			case 5:
				s.Have = make([]bool, n)
			case 6:
				s = swarm.Hostile(r, a, swarm.RandHave(r, n))
			}
			s.Have[r.IntN(n)] = false // never complete
			remotes = append(remotes, remote{s, g})
			give(g, a)
		}
		e := &entry{n: 1 + i, spec: g.spec, port: 7001 + i, limit: 1 + r.IntN(40), cancel: time.Hour}
		g.entries = []*entry{e}
		list = append(list, e)
	}
	for _, e := range append(list, victim) {
		dir, clean := c.Dir()
		defer clean()
		e.dir = dir
	}
	// handshake, unchoke and one answer after another, in one session at worst, and
	// the poll for the end
	limit := 5*time.Second + time.Duration(ours.spec.Blocks())*100*time.Millisecond
	if unchoke > 0 {
		limit += unchoke + 3*time.Second // and the pauses after reads that timed out
	}
	c.Bubble(func() {
		base := swarm.New(c, victim.spec, victim.dir)
		base.Net.OnSession = m.session
		at := map[string][]*swarm.Peer{}
		for _, x := range remotes {
			p := &swarm.Peer{Script: x.s, Spec: x.g.spec}
			at[x.s.Addr] = append(at[x.s.Addr], p)
			base.Net.Add(x.s.Addr, p.Host())
			if len(at[x.s.Addr]) > 1 {
				base.Net.Add(x.s.Addr, swarm.Shared(at[x.s.Addr], func(string, []byte) {}))
			}
			c.Logf("%x %s", x.g.spec.Hash, x.s.Describe())
		}
		answer := func(u string) func(int, *swarm.Announce) swarm.Reply {
			return func(n int, a *swarm.Announce) swarm.Reply {
				g := m.announce(u, a)
				if g == nil {
					return swarm.Reply{Failure: "unregistered torrent"}
				}
				if hang[u] {
					return swarm.Reply{Hang: true}
				}
				return swarm.Reply{Peers: append([]netip.AddrPort(nil), g.addrs...), Interval: swarm.Int(2 + n%7)}
			}
		}
		for _, u := range urls {
			base.AddTracker(&swarm.Tracker{URL: u, Answer: answer(u)})
		}
		for u := range hang {
			base.AddTracker(&swarm.Tracker{URL: u, Answer: answer(u)})
		}
		for _, e := range list {
			e.w = base.Another(e.spec, e.dir)
			e.w.Load()
			m.begin(e)
			e.w.StartLoaded(e.limit, e.port)
		}
		time.Sleep(victim.start)
		victim.w = base.Another(victim.spec, victim.dir)
		victim.w.Load()
		m.begin(victim)
		victim.w.StartLoaded(victim.limit, victim.port)
		ok := victim.w.Wait(limit)
		took := time.Since(victim.began)
		if ok {
			m.over(victim)
			if err := victim.spec.Complete(victim.dir); err != nil {
				m.mu.Lock()
				m.fail("finished download of %s has wrong content: %v", victim.spec, err)
				m.mu.Unlock()
			}
		}
		victim.w.End()
		sessions := 0
		for _, e := range list {
			done := false
			select {
			case <-e.w.Done():
				done = true
			default:
			}
			m.mu.Lock()
			if done && !e.w.T.Done() {
				m.fail("stuck download %d of %s returned by itself when another one finished", e.n, e.spec)
			}
			sessions += m.groups[string(e.spec.Hash[:])].total
			m.mu.Unlock()
		}
		for _, e := range list {
			e.w.Cancel()
			if !e.w.Wait(bound) {
				m.mu.Lock()
				m.fail("download %d of %s has not returned %s after it was stopped", e.n, e.spec, bound)
				m.mu.Unlock()
			}
			e.w.End()
		}
		base.Finish()
		m.mu.Lock()
		bad := m.bad
		m.mu.Unlock()
		if !ok {
			bad = fmt.Sprintf("download of %s from prompt peers has not finished after %s, beside %d downloads that are stuck (%s)", victim.spec, took, len(list), kinds)
		}
		if bad != "" {
			trace(c, base)
			c.Fail("%s", bad)
		}
		c.Eval(1)
		c.Count("prompt downloads beside stuck ones", 1)
		c.Count("sessions of stuck downloads open at that time", sessions)
		c.Distinct(kinds, victim.spec.String(), took.String())
	})
}
