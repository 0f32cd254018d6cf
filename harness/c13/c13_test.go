package c13

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"

	"verif/internal/mon"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C13",
		mon.Family{Name: "honest", Quick: 720, Thorough: 7200, Fn: func(c *mon.Case) { run(c, opts{}) }},
		mon.Family{Name: "hostile", Quick: 2400, Thorough: 24000, Fn: func(c *mon.Case) { run(c, opts{hostile: 4}) }},
		mon.Family{Name: "big", Quick: 480, Thorough: 4800, Fn: func(c *mon.Case) { run(c, opts{big: true, hostile: 3}) }},
		mon.Family{Name: "onekind", Quick: 576, Thorough: 5760, Fn: oneKind},
		mon.Family{Name: "split", Quick: 720, Thorough: 7200, Fn: func(c *mon.Case) { run(c, opts{split: true, hostile: 3}) }},
		mon.Family{Name: "trackers", Quick: 960, Thorough: 9600, Fn: func(c *mon.Case) { run(c, opts{trackers: true, hostile: 2}) }},
		mon.Family{Name: "geometry", Quick: 1200, Thorough: 12000, Fn: geometry},
		mon.Family{Name: "manypieces", Quick: 24, Thorough: 240, Fn: manyPieces},
		mon.Family{Name: "manyblocks", Quick: 64, Thorough: 640, Fn: manyBlocks},
		mon.Family{Name: "slowwriter", Quick: 720, Thorough: 7200, Fn: slowWriter},
		mon.Family{Name: "patient", Quick: 960, Thorough: 9600, Fn: patient},
		mon.Family{Name: "crowd", Quick: 96, Thorough: 960, Fn: crowd},
	)
}

type opts struct {
	big, split, trackers bool
	hostile              int
	spec                 *swarm.Spec
	kind                 int // answer kind of all hostile peers, when forced
	force                bool
	fast                 bool // honest peers answer at once
}

const trackerURL = "http://tracker.test/announce"

func run(c *mon.Case, o opts) {
	r := c.R
	urls := []string{trackerURL}
	if o.trackers {
		urls = pickTrackers(r)
	}
	spec := o.spec
	if spec == nil {
		sh := swarm.Shape{Trackers: urls, Big: o.big}
		if o.big {
			sh.MaxPieces = 5
		}
		spec = swarm.Gen(r, sh)
	}
	n := spec.NumPieces()

	// honest peers together have every piece
	honest := 1 + r.IntN(4)
	haves := make([][]bool, honest)
	for i := range haves {
		haves[i] = make([]bool, n)
		if !o.split {
			haves[i] = swarm.RandHave(r, n)
		}
	}
	for p := 0; p < n; p++ {
		haves[r.IntN(honest)][p] = true
	}
	var scripts []*swarm.Script
	addr := 1
	v6 := !o.trackers && r.IntN(5) == 0
	address := func(n int) netip.AddrPort {
		if v6 && n%3 > 0 {
			return swarm.Addr6(n)
		}
		return swarm.Addr(n)
	}
	for i := range haves {
		s := swarm.Honest(r, address(addr), haves[i])
		if o.fast {
			s.Delay, s.DelaySpread, s.Chokes = 0, 0, nil
		}
		scripts = append(scripts, s)
		addr++
	}
	hostile := 0
	if o.hostile > 0 {
		hostile = r.IntN(o.hostile + 1)
		if o.force {
			hostile = 1 + r.IntN(o.hostile)
		}
	}
	sessions := 0
	for i := 0; i < hostile; i++ {
		have := swarm.All(n)
		if r.IntN(3) == 0 {
			have = swarm.RandHave(r, n)
		}
		s := swarm.Hostile(r, address(addr), have)
		if !o.force && r.IntN(6) == 0 {
			s = swarm.Choker(r, address(addr), have)
		}
		addr++
		if o.force {
			k := o.kind
			s.Answers = func(int, *rand.Rand) int { return k }
			s.HS, s.Unchoke, s.Life, s.Blackhole, s.Refuse = swarm.HSGood, 0, 0, false, nil
		}
		if s.Refuse == nil {
			most := 1 + r.IntN(3)
			sessions += most
			s.Refuse = func(attempt int) bool { return attempt >= most }
		}
		scripts = append(scripts, s)
	}

	bound := 10*time.Minute + time.Duration(spec.Blocks())*10*time.Second + time.Duration(sessions)*2*time.Minute
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var addrs []netip.AddrPort
		for _, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		order := r.Perm(len(addrs))
		shuffled := make([]netip.AddrPort, len(addrs))
		for i, j := range order {
			shuffled[i] = addrs[j]
		}
		addTrackers(c, w, urls, shuffled, o.trackers)
		c.Logf("%s", spec)
		if r.IntN(3) == 0 {
			if err := spec.Prefill(r, dir); err != nil {
				c.Harness("prefill: %v", err)
			}
			c.Count("downloads over older files", 1)
		}
		w.Start(len(addrs)+r.IntN(3), 6881)
		ok := w.Wait(bound)
		took := w.Took()
		if !ok {
			img, _ := spec.Disk(dir)
			on := spec.OnDisk(img)
			for _, t := range w.Trackers {
				c.Logf("tracker %s", t.Describe(w.Began()))
			}
			for i, e := range w.Net.Events() {
				if i > 100 {
					break
				}
				c.Logf("+%s %s %s", e.At.Sub(w.Began()), e.Kind, e.Addr)
			}
			w.Finish()
			c.Fail("download did not finish within %s of virtual time although honest peers have every piece; on disk: %v\n%s", bound, on, spec)
		}
		err := w.Err()
		done := w.T.Done()
		w.Finish()
		c.Check(err == nil, "download of complete content returned %v", err)
		c.Check(done, "download returned by itself but the torrent is not complete")
		if err := spec.Complete(dir); err != nil {
			c.Fail("finished download has wrong content: %v\n%s", err, spec)
		}
		c.Eval(1)
		c.Count("downloads finished", 1)
		c.Count("bytes downloaded", spec.Length)
		opened, packets := w.Net.Stats()
		c.Count("peer sessions", opened)
		c.Count("udp packets", packets)
		sig := ""
		for _, p := range w.Peers {
			ans, kinds, noise := p.Stats()
			c.Count("blocks answered", ans)
			c.Count("noise frames", noise)
			for k, m := range kinds {
				if m > 0 {
					c.Count("answers "+swarm.AnswerName(k), m)
					sig += fmt.Sprint(k, ":", m, " ")
				}
			}
			sig += "|"
		}
		c.Distinct(spec.String(), sig)
		c.Sample("%s; %d honest and %d hostile peers, %d sessions, finished after %s", spec, honest, hostile, opened, took)
	})
}

func pickTrackers(r *rand.Rand) []string {
	all := []string{trackerURL, "http://other.test:8080/x/announce?pass=1", "udp://udp.test:1337", "udp://udp2.test:80/announce", "https://tls.test/announce", "http://dead.test/announce", "udp://nohost.test:99", "ftp://weird.test/x"}
	live := all[r.IntN(5)]
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	urls := all[:1+r.IntN(len(all))]
	for _, u := range urls {
		if u == live {
			return urls
		}
	}
	return append(urls[:len(urls):len(urls)], live)
}

// addTrackers: at least one tracker ends up announcing all peers.
func addTrackers(c *mon.Case, w *swarm.World, urls []string, addrs []netip.AddrPort, varied bool) {
	r := rand.New(rand.NewPCG(c.Seed, 77))
	if !varied {
		dict := r.IntN(2) == 0
		for _, a := range addrs {
			dict = dict || a.Addr().Is6()
		}
		iv := swarm.Int(5 + r.IntN(60))
		w.AddTracker(&swarm.Tracker{URL: urls[0], Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: iv, Dict: dict}
		}})
		return
	}
	working := func(u string) bool {
		switch u {
		case "http://dead.test/announce", "udp://nohost.test:99", "ftp://weird.test/x":
			return false
		}
		return true
	}
	var live []string
	for _, u := range urls {
		if working(u) {
			live = append(live, u)
		}
	}
	chosen := r.IntN(len(live))
	for i, u := range live {
		fails := r.IntN(8)
		kind := r.IntN(4)
		dict := r.IntN(2) == 0
		iv := swarm.Int(5 + r.IntN(60))
		if r.IntN(5) == 0 {
			iv = nil
		}
		full := i == chosen
		part := addrs[:r.IntN(len(addrs)+1)]
		delay := time.Duration(r.IntN(400)) * time.Millisecond
		w.AddTracker(&swarm.Tracker{URL: u, Answer: func(n int, _ *swarm.Announce) swarm.Reply {
			if n < fails {
				switch kind {
				case 0:
					return swarm.Reply{Err: true}
				case 1:
					return swarm.Reply{Failure: "not now"}
				case 2:
					return swarm.Reply{Status: 503, Body: []byte("busy"), Err: i%2 == 0}
				default:
					return swarm.Reply{Body: []byte("d8:intervali30e5:peersi5ee"), Failure: "x"}
				}
			}
			rep := swarm.Reply{Interval: iv, Dict: dict, Delay: delay}
			if full && n >= fails {
				rep.Peers = addrs
			} else {
				rep.Peers = part
			}
			if n%3 == 1 && len(rep.Peers) > 0 {
				rep.Peers = append(append([]netip.AddrPort(nil), rep.Peers...), rep.Peers[0])
			}
			return rep
		}})
	}
}

// oneKind lets every hostile peer misbehave in one way all the time.
func oneKind(c *mon.Case) {
	var i int
	fmt.Sscanf(c.ID, "onekind/%d", &i)
	run(c, opts{hostile: 3, force: true, kind: i % swarm.AnswerKinds, big: i/swarm.AnswerKinds%3 == 0})
}

// geometry drives plain downloads over awkward layouts.
func geometry(c *mon.Case) {
	r := c.R
	pieceLen := []int{1, 2, 3, 7, 16, 64, 1000}[r.IntN(7)]
	total := r.IntN(40 * pieceLen)
	if total > 6000 {
		total = 6000
	}
	single := r.IntN(3) == 0
	if total == 0 && single {
		total = 1
	}
	spec := swarm.NewSpec(r, "g", single, swarm.Layout(r, total, pieceLen, single), pieceLen, []string{trackerURL}, nil)
	run(c, opts{spec: spec, hostile: r.IntN(2)})
}

// manyPieces has thousands of pieces, and hundreds of files.
func manyPieces(c *mon.Case) {
	r := c.R
	pieceLen := []int{1, 3, 16, 100}[r.IntN(4)]
	n := 1000 + r.IntN(2500)
	if r.IntN(12) == 0 {
		n = 65500 + r.IntN(500)
	}
	total := n*pieceLen - r.IntN(pieceLen)
	single := r.IntN(3) == 0
	files := swarm.Layout(r, total, pieceLen, single)
	if !single && r.IntN(2) == 0 {
		files = nil
		for left := total; left > 0; {
			l := min(left, r.IntN(2*total/300+2))
			if len(files) == 400 {
				l = left
			}
			files = append(files, swarm.File{Path: []string{fmt.Sprint("f", len(files))}, Length: l})
			left -= l
		}
	}
	spec := swarm.NewSpec(r, "many", single, files, pieceLen, []string{trackerURL}, nil)
	run(c, opts{spec: spec, hostile: r.IntN(2), fast: true})
}

// manyBlocks has pieces of many blocks.
func manyBlocks(c *mon.Case) {
	r := c.R
	blocks := 6 + r.IntN(14)
	switch r.IntN(6) {
	case 0:
		blocks = 30 + r.IntN(40)
	case 1:
		blocks = 64 + r.IntN(70)
	}
	pieceLen := blocks*swarm.BlockLimit - r.IntN(2)*r.IntN(swarm.BlockLimit)
	total := pieceLen*r.IntN(2) + 1 + r.IntN(pieceLen)
	if r.IntN(3) == 0 {
		total = pieceLen
	}
	single := r.IntN(2) == 0
	spec := swarm.NewSpec(r, "blocks", single, swarm.Layout(r, total, pieceLen, single), pieceLen, []string{trackerURL}, nil)
	run(c, opts{spec: spec, hostile: r.IntN(2)})
}

// crowd has many peers.
func crowd(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{Trackers: []string{trackerURL}, MaxPieces: 150, MaxPieceLen: 256})
	run(c, opts{spec: spec, hostile: 25})
}

// slowWriter runs sessions of the real peer client without the manager, with a
// storage side that falls behind the peers: verified pieces have to wait for
// it, none may get lost.
func slowWriter(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{Trackers: []string{trackerURL}, MaxPieces: 60, MaxPieceLen: 512, Big: r.IntN(6) == 0})
	n := spec.NumPieces()
	peers := 1 + r.IntN(4)
	var scripts []*swarm.Script
	for i := 0; i < peers; i++ {
		have := swarm.All(n)
		if i > 0 {
			have = swarm.RandHave(r, n)
		}
		scripts = append(scripts, swarm.Honest(r, swarm.Addr(i+1), have))
	}
	room := []int{0, 0, 1, 2, 8}[r.IntN(5)]
	pause := []time.Duration{time.Millisecond, 40 * time.Millisecond, 400 * time.Millisecond, 3 * time.Second}[r.IntN(4)]
	first := time.Duration(r.IntN(2)) * time.Duration(r.IntN(20000)) * time.Millisecond
	bound := 10*time.Minute + time.Duration(n)*(pause+10*time.Second)
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		for _, s := range scripts {
			w.AddPeer(s)
			c.Logf("%s", s.Describe())
		}
		w.Load()
		ctx, cancel := context.WithCancel(context.Background())
		pieces := make(chan *util.PeerMessage, room)
		toDisk := make(chan *util.PeerMessage)
		written := make(chan struct{})
		go func() {
			defer close(written)
			w.T.WritePiece(toDisk, stats.NewStats(uint64(spec.Length)))
		}()
		wr := rand.New(rand.NewPCG(c.Seed, 99))
		var passed int
		go func() {
			defer close(toDisk)
			time.Sleep(first)
			for m := range pieces {
				time.Sleep(time.Duration(wr.Int64N(int64(pause) + 1)))
				toDisk <- m
				passed++
			}
		}()
		var wg sync.WaitGroup
		for _, s := range scripts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ctx.Err() == nil && !w.T.Done() {
					p := peer.NewPeer(netip.MustParseAddrPort(s.Addr), w.T, torrent.NewPiecesQueue(), pieces, zap.NewNop())
					if p.Announce(w.T) == nil {
						p.Run(ctx)
						_ = p.Close()
					}
					time.Sleep(time.Second)
				}
			}()
		}
		deadline := time.Now().Add(bound)
		for !w.T.Done() && time.Now().Before(deadline) {
			time.Sleep(200 * time.Millisecond)
		}
		done := w.T.Done()
		cancel()
		wg.Wait()
		close(pieces)
		<-written
		img, _ := spec.Disk(dir)
		on := spec.OnDisk(img)
		err := spec.Complete(dir)
		w.Finish()
		if !done {
			c.Fail("peers serve every piece and storage takes up to %s for each (room for %d waiting), after %s of virtual time the download is not complete; %d pieces reached storage, on disk: %v\n%s", pause, room, bound, passed, on, spec)
		}
		if err != nil {
			c.Fail("finished download has wrong content: %v\n%s", err, spec)
		}
		c.Eval(1)
		c.Count("downloads finished with slow storage", 1)
		c.Count("pieces stored late", passed)
		c.Distinct(spec.String(), room, pause, peers)
	})
}

// patient has honest peers that take their time (late unchokes, choke pauses,
// pieces announced late) and a tracker that will not be asked again before the
// limit, so every session has to last.
func patient(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{Trackers: []string{trackerURL}, MaxPieces: 30, MaxPieceLen: 300, Big: r.IntN(8) == 0})
	n := spec.NumPieces()
	peers := 1 + r.IntN(3)
	haves := make([][]bool, peers)
	for i := range haves {
		haves[i] = make([]bool, n)
	}
	for p := 0; p < n; p++ {
		haves[r.IntN(peers)][p] = true
	}
	limit := 10*time.Minute + time.Duration(spec.Blocks())*40*time.Second
	var scripts []*swarm.Script
	for i := range haves {
		s := swarm.Honest(r, swarm.Addr(i+1), haves[i])
		s.UnchokeFirst, s.Chokes = false, nil
		mode := r.IntN(4)
		if spec.Blocks() > n && mode == 0 {
			mode = 1 // a choke discards the blocks of an unfinished piece
		}
		switch mode {
		case 0: // an answer comes between any two pauses
			every := 2 + r.IntN(3)
			s.Answers = func(k int, _ *rand.Rand) int {
				if k%every == every-1 {
					return swarm.ChokeInstead
				}
				return swarm.Good
			}
		case 1:
			s.Unchoke = time.Duration(r.IntN(300)) * time.Second
			limit += 2 * s.Unchoke
		case 2:
			s.Later = map[int]time.Duration{}
			for j := range haves[i] {
				if haves[i][j] && r.IntN(3) > 0 {
					s.Later[j] = time.Duration(r.IntN(600)) * time.Second
				}
			}
			limit += 20 * time.Minute
		case 3:
			for at := 5 + r.IntN(60); at < 400 && len(s.Chokes) < 8; at += 30 + r.IntN(200) {
				d := 1 + r.IntN(60)
				s.Chokes = append(s.Chokes, swarm.Episode{At: time.Duration(at) * time.Second, For: time.Duration(d) * time.Second})
				at += d
			}
			limit += 20 * time.Minute
		}
		scripts = append(scripts, s)
	}
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var addrs []netip.AddrPort
		for _, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		w.AddTracker(&swarm.Tracker{URL: trackerURL, Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(100 * 3600)}
		}})
		w.Start(len(addrs), 6881)
		ok := w.Wait(limit)
		img, _ := spec.Disk(dir)
		on := spec.OnDisk(img)
		took := w.Since()
		opened, _ := w.Net.Stats()
		if !ok {
			for i, e := range w.Net.Events() {
				if i > 100 {
					break
				}
				c.Logf("+%s %s %s", e.At.Sub(w.Began()), e.Kind, e.Addr)
			}
			w.Finish()
			c.Fail("honest peers that take their time have every piece, yet the download did not finish within %s of virtual time; on disk: %v\n%s", limit, on, spec)
		}
		w.Finish()
		if err := spec.Complete(dir); err != nil {
			c.Fail("finished download has wrong content: %v\n%s", err, spec)
		}
		c.Eval(1)
		c.Count("downloads finished from slow peers", 1)
		c.Count("peer sessions", opened)
		c.Distinct(spec.String(), took)
	})
}
