package c12

import (
	"math/rand/v2"
	"net/netip"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/peer"

	"verif/internal/mon"
	"verif/internal/proto"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C12",
		mon.Family{Name: "sessions", Quick: 6000, Thorough: 60000, Fn: func(c *mon.Case) { run(c, random(c, false), time.Duration(5+c.R.IntN(60))*time.Second) }},
		mon.Family{Name: "multiblock", Quick: 600, Thorough: 6000, Fn: func(c *mon.Case) { run(c, random(c, true), time.Duration(5+c.R.IntN(60))*time.Second) }},
		mon.Family{Name: "handshakes", Quick: 1200, Thorough: 12000, Fn: func(c *mon.Case) { run(c, handshakes(c), 20*time.Second) }},
		mon.Family{Name: "chokes", Quick: 2000, Thorough: 20000, Fn: func(c *mon.Case) { run(c, chokes(c), time.Minute) }},
		mon.Family{Name: "idle", Quick: 300, Thorough: 3000, Fn: func(c *mon.Case) { run(c, idle(c), 15*time.Minute) }},
		mon.Family{Name: "manypieces", Quick: 64, Thorough: 640, Fn: func(c *mon.Case) { run(c, manyPieces(c), 20*time.Second) }},
		mon.Family{Name: "lastpiece", Quick: 800, Thorough: 8000, Fn: func(c *mon.Case) { run(c, lastPiece(c), time.Minute) }},
	)
}

type scene struct {
	spec    *swarm.Spec
	scripts []*swarm.Script
}

var url = []string{"http://tracker.test/announce"}

func random(c *mon.Case, big bool) scene {
	r := c.R
	sh := swarm.Shape{Trackers: url, Big: big, MaxPieces: 20}
	if big {
		sh.MaxPieces = 4
	}
	s := scene{spec: swarm.Gen(r, sh)}
	n := s.spec.NumPieces()
	for i := 0; i < 1+r.IntN(3); i++ {
		if r.IntN(4) == 0 {
			s.scripts = append(s.scripts, swarm.Honest(r, swarm.Addr(i+1), swarm.RandHave(r, n)))
		} else {
			s.scripts = append(s.scripts, swarm.Hostile(r, swarm.Addr(i+1), swarm.RandHave(r, n)))
		}
	}
	return s
}

func handshakes(c *mon.Case) scene {
	r := c.R
	s := scene{spec: swarm.Gen(r, swarm.Shape{Trackers: url, MaxPieces: 6})}
	n := s.spec.NumPieces()
	for i := 0; i < 4; i++ {
		p := swarm.Honest(r, swarm.Addr(i+1), swarm.All(n))
		p.HS = r.IntN(swarm.HSKinds)
		if r.IntN(4) == 0 {
			p.HSDelay = time.Duration(r.IntN(2500)) * time.Millisecond
		}
		s.scripts = append(s.scripts, p)
	}
	return s
}

// chokes toggles choking at every distance from requests.
func chokes(c *mon.Case) scene {
	r := c.R
	s := scene{spec: swarm.Gen(r, swarm.Shape{Trackers: url, MaxPieces: 30, MaxPieceLen: 64})}
	n := s.spec.NumPieces()
	p := swarm.Honest(r, swarm.Addr(1), swarm.All(n))
	p.Delay = time.Duration(r.IntN(900)) * time.Millisecond
	p.DelaySpread = 0
	p.Chokes = nil
	at := time.Duration(0)
	for i := 0; i < 20; i++ {
		at += time.Duration(r.IntN(2500)) * time.Millisecond
		d := time.Duration(r.IntN(2500)) * time.Millisecond
		p.Chokes = append(p.Chokes, swarm.Episode{At: at, For: d})
		at += d
	}
	if r.IntN(2) == 0 {
		p.Unchoke = -1
		p.UnchokeFirst = r.IntN(2) == 0
	}
	s.scripts = append(s.scripts, p)
	return s
}

// idle keeps a session open with nothing to ask for.
func idle(c *mon.Case) scene {
	r := c.R
	s := scene{spec: swarm.Gen(r, swarm.Shape{Trackers: url, MaxPieces: 6})}
	n := s.spec.NumPieces()
	for i := 0; i < 3; i++ {
		have := make([]bool, n)
		p := swarm.Honest(r, swarm.Addr(i+1), have)
		p.Later = nil
		switch r.IntN(4) {
		case 0:
			p.Unchoke = -1
		case 1:
			p.Noise, p.NoiseEvery = []int{swarm.NKeepalive, swarm.NInterested}, time.Duration(200+r.IntN(110000))*time.Millisecond
		case 2:
			// one piece late in the session
			have[r.IntN(n)] = true
			p.NoField = true
			p.Later = map[int]time.Duration{}
			for j := range have {
				p.Later[j] = time.Duration(r.IntN(600)) * time.Second
			}
		}
		s.scripts = append(s.scripts, p)
	}
	return s
}

// manyPieces has piece numbers beyond 16 bits.
func manyPieces(c *mon.Case) scene {
	r := c.R
	n := 65000 + r.IntN(6000)
	pieceLen := 1 + r.IntN(4)
	s := scene{spec: swarm.NewSpec(r, "m", true, []swarm.File{{Length: n*pieceLen - r.IntN(pieceLen)}}, pieceLen, url, nil)}
	for i := 0; i < 1+r.IntN(2); i++ {
		have := make([]bool, n)
		for k := 5 + r.IntN(40); k > 0; k-- {
			have[[]int{r.IntN(n), n - 1 - r.IntN(300), min(n-1, 65530+r.IntN(40))}[r.IntN(3)]] = true
		}
		p := swarm.Honest(r, swarm.Addr(i+1), have)
		p.Later = nil
		s.scripts = append(s.scripts, p)
	}
	return s
}

// lastPiece looks at the ends of torrents and pieces.
func lastPiece(c *mon.Case) scene {
	r := c.R
	pieceLen := []int{1, 2, 100, swarm.BlockLimit - 1, swarm.BlockLimit, swarm.BlockLimit + 1, 2 * swarm.BlockLimit, 2*swarm.BlockLimit + 1}[r.IntN(8)]
	n := 1 + r.IntN(3)
	last := []int{1, pieceLen, max(1, pieceLen-1), max(1, pieceLen/2), min(pieceLen, swarm.BlockLimit), min(pieceLen, swarm.BlockLimit+1)}[r.IntN(6)]
	total := (n-1)*pieceLen + last
	single := r.IntN(2) == 0
	s := scene{spec: swarm.NewSpec(r, "l", single, swarm.Layout(r, total, pieceLen, single), pieceLen, url, nil)}
	s.scripts = append(s.scripts, swarm.Honest(r, swarm.Addr(1), swarm.All(n)))
	if r.IntN(2) == 0 {
		s.scripts = append(s.scripts, swarm.Hostile(r, swarm.Addr(2), swarm.All(n)))
	}
	return s
}

func run(c *mon.Case, s scene, limit time.Duration) {
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, s.spec, dir)
		var mu sync.Mutex
		var mons []*proto.Monitor
		w.Net.OnSession = func(v *vnet.Session) {
			m := proto.Attach(v, s.spec, peer.ClientId, c.Report)
			mu.Lock()
			mons = append(mons, m)
			mu.Unlock()
		}
		var addrs []netip.AddrPort
		for _, p := range s.scripts {
			w.AddPeer(p)
			addrs = append(addrs, netip.MustParseAddrPort(p.Addr))
			c.Logf("%s", p.Describe())
		}
		iv := swarm.Int(10 + rand.New(rand.NewPCG(c.Seed, 3)).IntN(120))
		w.AddTracker(&swarm.Tracker{URL: url[0], Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: iv}
		}})
		c.Logf("%s", s.spec)
		w.Start(50, 6881)
		w.Wait(limit)
		for _, m := range mons {
			m.Check()
		}
		w.Finish()
		c.Eval(len(mons))
		for _, m := range mons {
			c.Count("sessions", 1)
			c.Count("requests judged", m.Requests)
			c.Count("frames consumed by the client", m.Consumed)
			c.Count("keepalives", m.Keepalives)
			if !m.HandshakeSent() {
				c.Count("sessions without a complete handshake", 1)
			}
			if m.Valid() {
				c.Distinct(s.spec.NumPieces(), m.Signature())
			} else {
				c.Count("sessions refused after the handshake", 1)
			}
		}
		if len(mons) > 0 {
			c.Sample("%d sessions; trace of the first: %.300s", len(mons), mons[0].Signature())
		}
	})
}
