package c15

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net/netip"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/gosuri/uilive"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

// The race detector of the build is the monitor: a race ends the process and is
// reported by the driver. The workload has to bring the accesses together.
func Test(t *testing.T) {
	mon.Main(t, "C15",
		mon.Family{Name: "swarm", Quick: 700, Thorough: 20000, Fn: func(c *mon.Case) { world(c, false) }},
		mon.Family{Name: "realtime", Quick: 48, Thorough: 1200, Fn: func(c *mon.Case) { world(c, true) }},
		mon.Family{Name: "calls", Quick: 400, Thorough: 12000, Fn: calls},
		mon.Family{Name: "manager", Quick: 300, Thorough: 8000, Fn: manager},
		mon.Family{Name: "writer", Quick: 200, Thorough: 6000, Fn: writer},
		mon.Family{Name: "codec", Quick: 200, Thorough: 6000, Fn: codec},
		mon.Family{Name: "decoders", Quick: 300, Thorough: 9000, Fn: decoders},
		mon.Family{Name: "twins", Quick: 80, Thorough: 2400, Fn: twins},
	)
}

var urls = []string{"http://a.test/announce", "udp://b.test:1337", "http://c.test/announce?k=1", "udp://d.test:80", "http://e.test/x"}

// world is a whole download with everything going on at once.
func world(c *mon.Case, real bool) {
	r := c.R
	nt := 1 + r.IntN(len(urls))
	spec := swarm.Gen(r, swarm.Shape{Trackers: urls[:nt], MaxPieces: 40, MaxPieceLen: 600, Big: r.IntN(12) == 0})
	if spec.PieceLen > 60000 {
		spec = swarm.Gen(r, swarm.Shape{Trackers: urls[:nt], MaxPieces: 4, Big: true})
	}
	np := spec.NumPieces()
	k := 2 + r.IntN(9)
	var scripts []*swarm.Script
	for i := 0; i < k; i++ {
		addr := swarm.Addr(i + 1)
		switch {
		case i == 0:
			scripts = append(scripts, swarm.Honest(r, addr, swarm.All(np)))
		case r.IntN(3) > 0:
			scripts = append(scripts, swarm.Honest(r, addr, swarm.RandHave(r, np)))
		default:
			scripts = append(scripts, swarm.Hostile(r, addr, swarm.RandHave(r, np)))
		}
	}
	if real {
		for _, s := range scripts {
			s.Unchoke /= 10
			s.HSDelay /= 10
			s.DelaySpread /= 20
			s.DialDelay /= 10
			s.Later = nil
			if len(s.Noise) > 0 && s.NoiseEvery > 100*time.Millisecond {
				s.NoiseEvery = 20 * time.Millisecond
			}
		}
	}
	limit := time.Duration(1+r.IntN(60)) * time.Second
	if real {
		limit = time.Duration(300+r.IntN(1700)) * time.Millisecond
	}
	if !real && r.IntN(12) == 0 {
		// a piece that nobody has: sessions idle past their keepalives
		gone := r.IntN(np)
		for _, s := range scripts {
			s.Have[gone] = false
			s.Life = 0
		}
		limit = time.Duration(3+r.IntN(5)) * time.Minute
	}
	end := r.IntN(4)
	dir, clean := c.Dir()
	defer clean()
	run := func() {
		w := swarm.New(c, spec, dir)
		uilive.Out = io.Discard
		uilive.RefreshInterval = 50 * time.Millisecond
		var addrs []netip.AddrPort
		for _, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
		}
		for i := 0; i < nt; i++ {
			seed := r.Uint64()
			w.AddTracker(&swarm.Tracker{URL: urls[i], Answer: func(n int, _ *swarm.Announce) swarm.Reply {
				q := rand.New(rand.NewPCG(seed, uint64(n)))
				if q.IntN(5) == 0 {
					return swarm.Reply{Failure: "busy"}
				}
				list := append([]netip.AddrPort(nil), addrs...)
				list = append(list, addrs[q.IntN(len(addrs))])
				q.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
				return swarm.Reply{Peers: list, Interval: swarm.Int(1 + q.IntN(3)), Dict: q.IntN(2) == 0, Delay: time.Duration(q.IntN(100)) * time.Millisecond}
			}})
		}
		w.Start(1+r.IntN(12), 6881)
		var wg sync.WaitGroup
		stop := make(chan struct{})
		pause := func(d time.Duration) bool {
			t := time.NewTimer(d)
			defer t.Stop()
			select {
			case <-stop:
				return false
			case <-t.C:
				return true
			}
		}
		var polls atomic.Int64
		// outside observers use what the manager and the torrent export
		for i := 0; i < 2; i++ {
			step := time.Duration(7+13*i) * time.Millisecond
			if !real {
				step *= 10
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for pause(step) {
					_ = w.T.Done()
					w.M.UpdateStatus(0, 1)
					_ = w.T.CheckPiece(spec.Piece(0), 0)
					polls.Add(1)
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; pause(37*time.Millisecond) && i < 200; i++ {
				p := peer.NewPeer(swarm.Addr(200+i%2), w.T, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 1), zap.NewNop())
				w.M.AddPeer(p)
			}
		}()
		fin := w.Wait(limit)
		switch end {
		case 0:
			w.Cancel()
		case 1:
			wg.Add(2)
			go func() { defer wg.Done(); w.M.Stop() }()
			go func() { defer wg.Done(); w.Cancel() }()
		case 2:
			w.M.Stop()
		default:
			if !fin {
				w.Cancel()
			}
		}
		if real {
			time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
		}
		if !w.Wait(30 * time.Second) {
			w.Cancel()
			w.Wait(30 * time.Second)
		}
		close(stop)
		wg.Wait()
		w.Finish()
		opened, packets := w.Net.Stats()
		c.Eval(1)
		c.Count("downloads under the race detector", 1)
		c.Count("sessions", opened)
		c.Count("datagrams", packets)
		c.Count("outside observations", int(polls.Load()))
		if fin {
			c.Count("downloads that finished", 1)
		}
		ann := 0
		for _, t := range w.Trackers {
			ann += len(t.Seen())
		}
		c.Count("announces", ann)
		c.Distinct(real, nt, k, np, opened, ann, fin, end)
		c.Sample("real time %v: %d peers, %d trackers, %d pieces, %d sessions, %d announces, finished %v", real, k, nt, np, opened, ann, fin)
	}
	if real {
		run()
		// the download's goroutines are gone before the next world
		for i := 0; i < 50 && runtime.NumGoroutine() > 20; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		return
	}
	c.Bubble(run)
}

func load(c *mon.Case, pieces, size int) (*swarm.Spec, *torrent.Torrent, func()) {
	dir, clean := c.Dir()
	spec := swarm.NewSpec(c.R, "t", c.R.IntN(2) == 0, []swarm.File{{Path: []string{"f"}, Length: pieces*size - size/2}}, size, urls[:1], nil)
	w := &swarm.World{C: c, Spec: spec, Dir: dir}
	w.Load()
	return spec, w.T, func() { _ = w.T.Close(); clean() }
}

// calls uses the exported calls of one torrent, queue and statistics at once.
func calls(c *mon.Case) {
	r := c.R
	n := 1 + r.IntN(150)
	spec, t, clean := load(c, n, 8)
	defer clean()
	n = spec.NumPieces()
	q := torrent.NewPiecesQueue()
	s := stats.NewStats(uint64(spec.Length))
	uilive.Out = io.Discard
	uilive.RefreshInterval = time.Millisecond
	pp := stats.NewProgressPrinter(s)
	kinds := []func(id, i int){
		func(id, i int) {
			b := t.EmptyBitset()
			for j := uint(0); j < uint(n); j++ {
				b.Set(j)
			}
			t.Next(b)
		},
		func(id, i int) { t.SetDownloaded(uint(i % n)) },
		func(id, i int) { t.Done() },
		func(id, i int) { t.CheckPiece(spec.Piece(i%n), i%n) },
		func(id, i int) { q.RequestFailed(util.CreatePieceMessage(uint32(id), uint32(i), 1)) },
		func(id, i int) { q.FailedPieceMessage() },
		func(id, i int) { s.AddDownload(3); s.AddUpload(1) },
		func(id, i int) { _, _, _ = s.Download(), s.Upload(), s.Left() },
		func(id, i int) { _, _ = s.Speed(), s.PercentCompleted() },
		func(id, i int) { s.AddPeer(); _ = s.PeerNum(); s.RemovePeer() },
		func(id, i int) { s.AddTracker(); _ = s.TrackerNum(); s.RemoveTracker() },
		func(id, i int) {
			if i%8 == 0 {
				pp.Print()
			}
		},
		func(id, i int) { _ = t.BlockNum(); _ = len(t.Trackers) },
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	total := 0
	pick := r.Perm(len(kinds))
	if r.IntN(2) == 0 {
		pick = pick[:2+r.IntN(len(kinds)-2)]
	}
	for _, k := range pick {
		for d := 0; d < 2; d++ {
			wg.Add(1)
			total += 40
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 40; i++ {
					kinds[k](k, i+d*17)
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	pp.Close()
	c.Eval(1)
	c.Count("concurrent calls", total)
	c.Distinct(fmt.Sprint(pick), n)
}

// manager calls the manager from all sides while it runs a download.
func manager(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{Trackers: urls[:2], MaxPieces: 30, MaxPieceLen: 64})
	dir, clean := c.Dir()
	defer clean()
	delay := time.Duration(r.IntN(400)) * time.Millisecond
	slow := time.Duration(r.IntN(2)*500) * time.Millisecond // trackers say nothing before the stop
	if r.IntN(2) == 0 {
		delay = 0
	}
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		a := swarm.Addr(1)
		sc := &swarm.Script{Addr: a.String(), Have: swarm.All(spec.NumPieces()), Honest: true, Seed: r.Uint64(), Delay: time.Duration(r.IntN(40)) * time.Millisecond}
		w.AddPeer(sc)
		for _, u := range urls[:2] {
			w.AddTracker(&swarm.Tracker{URL: u, Answer: func(int, *swarm.Announce) swarm.Reply {
				return swarm.Reply{Peers: []netip.AddrPort{a, a}, Interval: swarm.Int(1), Delay: slow}
			}})
		}
		w.Load()
		m := download.NewMng(w.T, zap.NewNop(), 10, 6881)
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		goDo := func(fn func()) {
			wg.Add(1)
			go func() { defer wg.Done(); fn() }()
		}
		goDo(func() { _ = m.Download(ctx) })
		for i := 0; i < 3; i++ {
			goDo(func() {
				for j := 0; j < 20; j++ {
					m.UpdateStatus(1, 1)
					p := peer.NewPeer(swarm.Addr(100+i*j), w.T, torrent.NewPiecesQueue(), nil, zap.NewNop())
					m.AddPeer(p)
					_ = w.T.Done()
					time.Sleep(time.Millisecond)
				}
			})
		}
		if delay > 0 {
			time.Sleep(delay)
		} else {
			runtime.Gosched()
		}
		goDo(m.Stop)
		goDo(m.Stop)
		goDo(cancel)
		m.Stop()
		wg.Wait()
		cancel()
		w.Net.Shutdown()
		close(w.HTTP.Stopping())
		_ = w.T.Close()
		c.Eval(1)
		c.Count("managers called from all sides", 1)
		c.Distinct(delay, spec.NumPieces(), sc.Delay)
	})
}

// writer stores pieces while others ask for completion and totals.
func writer(c *mon.Case) {
	r := c.R
	spec, t, clean := load(c, 1+r.IntN(60), 1+r.IntN(40))
	defer clean()
	n := spec.NumPieces()
	s := stats.NewStats(uint64(spec.Length))
	ch := make(chan *util.PeerMessage, r.IntN(8))
	done := make(chan struct{})
	go func() { defer close(done); t.WritePiece(ch, s) }()
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := bitset.New(uint(n))
			for {
				select {
				case <-stop:
					return
				default:
				}
				_ = t.Done()
				_, _ = s.Download(), s.Left()
				_, _ = t.Next(b)
				runtime.Gosched()
			}
		}()
	}
	if r.IntN(2) == 0 {
		// somebody else marks pieces, too
		marks := r.Perm(n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range marks {
				t.SetDownloaded(uint(i))
				runtime.Gosched()
			}
		}()
	}
	var senders sync.WaitGroup
	order := r.Perm(n)
	for k := 0; k < 2; k++ {
		senders.Add(1)
		go func() {
			defer senders.Done()
			for j, i := range order {
				if j%2 == k || j%5 == 0 {
					body := append([]byte{7, byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i), 0, 0, 0, 0}, spec.Piece(i)...)
					ch <- util.NewPeerMessage(body)
				}
			}
		}()
	}
	senders.Wait()
	close(ch)
	<-done
	close(stop)
	wg.Wait()
	c.Eval(1)
	c.Count("pieces stored under observation", n)
	c.Distinct(n, spec.PieceLen, fmt.Sprint(order))
}

// codec encodes and decodes messages on many goroutines: values shared between
// peers (such as the keepalive) must not be written.
func codec(c *mon.Case) {
	r := c.R
	var wg sync.WaitGroup
	start := make(chan struct{})
	seeds := make([]uint64, 6)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	for _, seed := range seeds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := rand.New(rand.NewPCG(seed, 1))
			a, b := vnet.Pipe("x")
			defer a.Close()
			defer b.Close()
			<-start
			for i := 0; i < 40; i++ {
				msgs := []*util.PeerMessage{
					util.KeepalivePeerMessage, util.CreateInterestedMessage(), util.CreateUnchokeMessage(),
					util.CreatePieceMessage(q.Uint32(), q.Uint32(), q.Uint32()),
				}
				_, _ = msgs[q.IntN(len(msgs))].Send(a)
				body := make([]byte, q.IntN(40))
				for j := range body {
					body[j] = byte(q.IntN(256))
				}
				if len(body) > 0 {
					body[0] %= 10
				}
				m := util.NewPeerMessage(body)
				_ = m.Type
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Eval(1)
	c.Count("messages coded on several goroutines", 240*2)
	c.Distinct(fmt.Sprint(seeds))
}

// decoders decode on many goroutines, as several trackers do, into types that
// the decoder has not seen before, and print and encode what they got.
func decoders(c *mon.Case) {
	r := c.R
	// a new type every time
	var fields []reflect.StructField
	doc := ref.D()
	for i := 1 + r.IntN(5); i > 0; i-- {
		key := fmt.Sprintf("%c%x", 'a'+r.IntN(26), r.Uint32())
		typ, v := reflect.TypeOf(0), ref.I(int64(r.Uint32()))
		switch r.IntN(4) {
		case 0:
			typ, v = reflect.TypeOf(""), ref.S(key)
		case 1:
			typ, v = reflect.TypeOf([]string{}), ref.L(ref.S("x"), ref.S(key))
		case 2:
			typ = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("In%x", r.Uint32()), Type: typ, Tag: `ben:"in"`}})
			v = ref.D()
			v.Put("in", ref.I(5))
		}
		if doc.Get(key) != nil {
			continue
		}
		doc.Put(key, v)
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: typ, Tag: reflect.StructTag(fmt.Sprintf("ben:%q", key))})
	}
	typ := reflect.StructOf(fields)
	raw := doc.Encode()
	start := make(chan struct{})
	var wg sync.WaitGroup
	var bad atomic.Value
	for i := 0; i < 6; i++ {
		var target any
		switch i % 3 {
		case 0, 1:
			target = reflect.New(typ).Interface()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if target != nil {
				if err := bencode.Unmarshal(raw, target); err != nil {
					bad.Store(err.Error())
				}
				return
			}
			v, err := bencode.Parse(raw)
			if err != nil {
				bad.Store(err.Error())
				return
			}
			_, _ = v.Encode(), v.String()
		}()
	}
	close(start)
	wg.Wait()
	if s := bad.Load(); s != nil {
		c.Fail("decoding on several goroutines fails: %v, document %q", s, raw)
	}
	c.Eval(6)
	c.Count("documents decoded on several goroutines", 6)
	c.Distinct(string(raw))
}

// twins run two downloads of different torrents in one process: they share
// nothing but the client's identity.
func twins(c *mon.Case) {
	r := c.R
	dir1, clean1 := c.Dir()
	defer clean1()
	dir2, clean2 := c.Dir()
	defer clean2()
	specs := []*swarm.Spec{
		swarm.Gen(r, swarm.Shape{Trackers: urls[:1], MaxPieces: 20, MaxPieceLen: 200}),
		swarm.Gen(r, swarm.Shape{Trackers: urls[1:2], MaxPieces: 20, MaxPieceLen: 200}),
	}
	c.Bubble(func() {
		w := swarm.New(c, specs[0], dir1)
		dirs := []string{dir1, dir2}
		var ts []*torrent.Torrent
		var ms []*download.Manager
		for i, sp := range specs {
			a := swarm.Addr(10 * (i + 1))
			p := &swarm.Peer{Script: &swarm.Script{Addr: a.String(), Have: swarm.All(sp.NumPieces()), Honest: true, Seed: r.Uint64()}, Spec: sp}
			w.Net.Add(a.String(), p.Host())
			w.AddTracker(&swarm.Tracker{URL: urls[i], Answer: func(int, *swarm.Announce) swarm.Reply {
				return swarm.Reply{Peers: []netip.AddrPort{a}, Interval: swarm.Int(5)}
			}})
			t, err := sp.Load(dirs[i])
			if err != nil {
				c.Fail("valid torrent is refused: %v\n%s", err, sp)
			}
			ts = append(ts, t)
			ms = append(ms, download.NewMng(t, zap.NewNop(), 5, 6881))
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		var wg sync.WaitGroup
		for _, m := range ms {
			wg.Add(1)
			go func() { defer wg.Done(); _ = m.Download(ctx) }()
		}
		wg.Wait()
		for i := range ms {
			ms[i].Stop()
			_ = ts[i].Close()
		}
		w.Net.Shutdown()
		close(w.HTTP.Stopping())
		c.Eval(1)
		c.Count("pairs of downloads", 1)
		c.Distinct(specs[0].String(), specs[1].String())
	})
}
