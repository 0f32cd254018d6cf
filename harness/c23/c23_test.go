// Package c23 watches that nothing is fetched twice.
package c23

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"

	"verif/internal/mon"
	"verif/internal/proto"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C23",
		mon.Family{Name: "honest", Quick: 4000, Thorough: 60000, Fn: func(c *mon.Case) { honest(c, false) }},
		mon.Family{Name: "honestbig", Quick: 240, Thorough: 3000, Fn: func(c *mon.Case) { honest(c, true) }},
		mon.Family{Name: "mixed", Quick: 4000, Thorough: 60000, Fn: func(c *mon.Case) { mixed(c, false) }},
		mon.Family{Name: "mixedbig", Quick: 240, Thorough: 3000, Fn: func(c *mon.Case) { mixed(c, true) }},
		mon.Family{Name: "leavers", Quick: 3000, Thorough: 40000, Fn: leavers},
		mon.Family{Name: "late", Quick: 600, Thorough: 8000, Fn: late},
	)
}

var url = []string{"http://tracker.test/announce"}

// watch follows all requests of a download.
type watch struct {
	c    *mon.Case
	spec *swarm.Spec
	dir  string
	once bool // every block at most once

	mu       sync.Mutex
	asked    map[[2]int]string
	requests int
	bytes    int
	stored   int
	sessions int
	bad      string
	mons     []*proto.Monitor
}

func (w *watch) attach(v *vnet.Session) {
	m := proto.Attach(v, w.spec, peer.ClientId, func(string, ...any) {})
	m.OnRequest = w.request
	w.mu.Lock()
	w.sessions++
	w.mons = append(w.mons, m)
	w.mu.Unlock()
}

func (w *watch) request(m *proto.Monitor, index, begin, length int) {
	on := index >= 0 && index < w.spec.NumPieces() && w.onDisk(index)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.requests++
	w.bytes += length
	k := [2]int{index, begin}
	before := w.asked[k]
	w.asked[k] = m.Addr
	if w.bad != "" {
		return
	}
	if on {
		w.bad = fmt.Sprintf("piece %d is requested (offset %d) from %s although all of it is stored", index, begin, m.Addr)
	} else if w.once && before != "" {
		w.bad = fmt.Sprintf("offset %d of piece %d is requested from %s and was already requested from %s, which answers correctly and in time", begin, index, m.Addr, before)
	}
}

// onDisk tells if the files hold a piece; one of zeros might be a hole and does
// not count.
func (w *watch) onDisk(index int) bool {
	want := w.spec.Piece(index)
	if len(bytes.Trim(want, "\x00")) == 0 {
		return false
	}
	at := index * w.spec.PieceLen
	for i, f := range w.spec.Files {
		if len(want) == 0 {
			break
		}
		if at >= f.Length {
			at -= f.Length
			continue
		}
		n := min(f.Length-at, len(want))
		got := make([]byte, n)
		fh, err := os.Open(w.spec.Path(w.dir, i))
		if err != nil {
			return false
		}
		m, _ := fh.ReadAt(got, int64(at))
		_ = fh.Close()
		if m != n || !bytes.Equal(got, want[:n]) {
			return false
		}
		want, at = want[n:], 0
	}
	return len(want) == 0
}

func (w *watch) verdict() {
	w.mu.Lock()
	bad, mons := w.bad, w.mons
	w.mu.Unlock()
	if bad == "" {
		return
	}
	for _, m := range mons {
		for _, l := range m.Trace(time.Time{}) {
			w.c.Logf("%s", l)
		}
	}
	w.c.Report("%s\n%s", bad, w.spec)
}

func shape(r *rand.Rand, big bool) swarm.Shape {
	sh := swarm.Shape{Trackers: url, Big: big, MaxPieces: 20}
	if big {
		sh.MaxPieces = 5
	} else if r.IntN(5) == 0 {
		sh.MaxPieces, sh.MaxPieceLen = 150, 60
	}
	return sh
}

// prompt peers answer everything, always in time, and stay.
func prompt(r *rand.Rand, n int) []*swarm.Script {
	peers := 1 + r.IntN(6)
	haves := make([][]bool, peers)
	for i := range haves {
		haves[i] = swarm.RandHave(r, n)
	}
	for p := 0; p < n; p++ {
		haves[r.IntN(peers)][p] = true
	}
	var out []*swarm.Script
	for i, h := range haves {
		s := swarm.Honest(r, swarm.Addr(i+1), h)
		s.Chokes = nil
		s.DelaySpread = min(s.DelaySpread, 500*time.Millisecond)
		out = append(out, s)
	}
	return out
}

func honest(c *mon.Case, big bool) {
	spec := swarm.Gen(c.R, shape(c.R, big))
	drive(c, spec, prompt(c.R, spec.NumPieces()), true)
}

// mixed adds peers that misbehave in any way.
func mixed(c *mon.Case, big bool) {
	r := c.R
	spec := swarm.Gen(r, shape(r, big))
	n := spec.NumPieces()
	list := prompt(r, n)
	for _, s := range list {
		if r.IntN(2) == 0 {
			s.Chokes = []swarm.Episode{{At: time.Duration(r.IntN(8000)) * time.Millisecond, For: time.Duration(1+r.IntN(4000)) * time.Millisecond}}
		}
	}
	for i := 0; i < 1+r.IntN(5); i++ {
		have := swarm.All(n)
		if r.IntN(3) == 0 {
			have = swarm.RandHave(r, n)
		}
		list = append(list, swarm.Hostile(r, swarm.Addr(100+i), have))
	}
	drive(c, spec, list, false)
}

// late has peers whose answers come around and after the client's timeout, and
// that choke in between.
func late(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, shape(r, r.IntN(4) > 0))
	n := spec.NumPieces()
	var list []*swarm.Script
	for i := 0; i < 1+r.IntN(3); i++ {
		s := swarm.Honest(r, swarm.Addr(i+1), swarm.All(n))
		s.Later = nil
		s.Delay = time.Duration(r.IntN(900)) * time.Millisecond
		s.DelaySpread = time.Duration(1+r.IntN(2500)) * time.Millisecond
		s.Chokes = nil
		for at := r.IntN(3000); at < 60000; at += 500 + r.IntN(9000) {
			s.Chokes = append(s.Chokes, swarm.Episode{At: time.Duration(at) * time.Millisecond, For: time.Duration(1+r.IntN(700)) * time.Millisecond})
		}
		list = append(list, s)
	}
	drive(c, spec, list, false)
}

// leavers have peers that serve well and end their sessions again and again.
func leavers(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{Trackers: url, MaxPieces: 40, MaxPieceLen: 300})
	n := spec.NumPieces()
	var list []*swarm.Script
	for i := 0; i < 2+r.IntN(5); i++ {
		s := swarm.Honest(r, swarm.Addr(i+1), swarm.All(n))
		s.Chokes, s.Later = nil, nil
		s.DelaySpread = min(s.DelaySpread, 300*time.Millisecond)
		s.Life = time.Duration(500+r.IntN(6000)) * time.Millisecond
		if r.IntN(3) == 0 {
			kind := []int{swarm.Hangup, swarm.CutFrame, swarm.Duplicate, swarm.ChokeInstead, swarm.ChokeThenGood, swarm.Stall}[r.IntN(6)]
			at := 1 + r.IntN(12)
			s.Answers = func(k int, _ *rand.Rand) int {
				if k%at == at-1 {
					return kind
				}
				return swarm.Good
			}
		}
		list = append(list, s)
	}
	drive(c, spec, list, false)
}

func drive(c *mon.Case, spec *swarm.Spec, list []*swarm.Script, once bool) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		o := &watch{c: c, spec: spec, dir: dir, once: once, asked: map[[2]int]string{}}
		w.Net.OnSession = o.attach
		var addrs []netip.AddrPort
		for _, s := range list {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		c.Logf("%s", spec)
		iv := 5 + r.IntN(30)
		w.AddTracker(&swarm.Tracker{URL: url[0], Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(iv)}
		}})
		w.Start(len(addrs)+5, 6881)
		finished := w.Wait(time.Duration(1+r.IntN(4)) * time.Minute)
		w.Finish()
		o.verdict()
		o.mu.Lock()
		defer o.mu.Unlock()
		if once && finished && spec.Complete(dir) == nil {
			// everything was needed, so everything was asked for
			if o.bytes != spec.Length && o.bad == "" {
				o.c.Report("%d bytes were requested from peers that answer correctly and in time, for %d bytes of content\n%s", o.bytes, spec.Length, spec)
			}
			c.Count("downloads with exactly one request per block", 1)
		}
		c.Eval(1)
		c.Count("requests watched", o.requests)
		c.Count("sessions", o.sessions)
		if finished {
			c.Count("downloads finished", 1)
		}
		if o.requests > 0 {
			c.Distinct(spec.String(), o.requests, o.sessions)
			c.Sample("%s: %d peers, %d sessions, %d requests for %d bytes", spec, len(list), o.sessions, o.requests, o.bytes)
		}
	})
}
