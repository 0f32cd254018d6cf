package swarm

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net/netip"
	"net/url"
	"sync"
	"time"

	"github.com/gosuri/uilive"
	"go.uber.org/zap"

	"github.com/anivanovic/gotit/pkg/download"
	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/torrent"

	"verif/internal/mon"
	"verif/internal/vnet"
)

// World is one download and everything around it.
type World struct {
	C    *mon.Case
	Net  *vnet.Net
	Spec *Spec
	Dir  string
	T    *torrent.Torrent
	M    *download.Manager
	HTTP *httpWorld
	Log  *zap.Logger // nil: none

	Trackers []*Tracker
	Peers    []*Peer

	start  time.Time
	cancel context.CancelFunc
	mu     sync.Mutex
	done   chan struct{}
	err    error
	ended  time.Time
}

// Quiet sends progress output to w (discarded when nil).
func Quiet(w io.Writer) {
	if w == nil {
		w = io.Discard
	}
	uilive.Out = w
	uilive.RefreshInterval = time.Hour
}

// New makes a world and routes the client's network through it.
func New(c *mon.Case, spec *Spec, dir string) *World {
	w := &World{C: c, Net: vnet.New(), Spec: spec, Dir: dir, start: time.Now()}
	w.HTTP = &httpWorld{trackers: map[string]*Tracker{}, stop: make(chan struct{})}
	gotitnet.DialHook = w.Net.Dial
	setHTTP(w.HTTP)
	Quiet(nil)
	return w
}

// Another makes a world for another download on the same network. It ends with
// End, while the network is only shut down by Finish of the first one.
func (w *World) Another(spec *Spec, dir string) *World {
	return &World{C: w.C, Net: w.Net, HTTP: w.HTTP, Log: w.Log, Spec: spec, Dir: dir, start: time.Now()}
}

// AddTracker puts a tracker on the network.
func (w *World) AddTracker(t *Tracker) *Tracker {
	u, err := url.Parse(t.URL)
	if err != nil {
		w.C.Harness("tracker url: %v", err)
	}
	if isUDP(t.URL) {
		w.Net.Add(u.Host, udpHost(t))
	} else {
		w.HTTP.mu.Lock()
		w.HTTP.trackers[u.Host+u.Path] = t
		w.HTTP.mu.Unlock()
	}
	w.Trackers = append(w.Trackers, t)
	return t
}

// AddPeer puts a peer on the network.
func (w *World) AddPeer(s *Script) *Peer {
	p := &Peer{Script: s, Spec: w.Spec}
	w.Net.Add(s.Addr, p.Host())
	w.Peers = append(w.Peers, p)
	return p
}

// Load loads the torrent; it has to succeed.
func (w *World) Load() {
	var err error
	w.C.Call("load torrent", func() { w.T, err = w.Spec.Load(w.Dir) })
	if err != nil {
		w.C.Fail("valid torrent is refused: %v\n%s", err, w.Spec)
	}
}

// Start loads the torrent and starts the download.
func (w *World) Start(peerNum, port int) {
	w.Load()
	w.StartLoaded(peerNum, port)
}

// StartLoaded starts the download of the loaded torrent.
func (w *World) StartLoaded(peerNum, port int) {
	if w.Log == nil {
		w.Log = zap.NewNop()
	}
	w.M = download.NewMng(w.T, w.Log, peerNum, port)
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	w.done = make(chan struct{})
	go func() {
		err := w.M.Download(ctx)
		w.mu.Lock()
		w.err = err
		w.ended = time.Now()
		w.mu.Unlock()
		close(w.done)
	}()
}

// Cancel cancels the download's context.
func (w *World) Cancel() { w.cancel() }

// Done is closed when the download has returned.
func (w *World) Done() <-chan struct{} { return w.done }

// Err is the result of the download.
func (w *World) Err() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.err
}

// Wait waits for the download to return.
func (w *World) Wait(limit time.Duration) bool {
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-w.done:
		return true
	case <-t.C:
		return false
	}
}

// Took is the time the download took.
func (w *World) Took() time.Duration {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ended.Sub(w.start)
}

// Began is when the world began.
func (w *World) Began() time.Time { return w.start }

// Since is the time since the world began.
func (w *World) Since() time.Duration { return time.Since(w.start) }

// Finish stops everything and returns false if the download does not end.
func (w *World) Finish() bool {
	ok := w.stop()
	w.Net.Shutdown()
	close(w.HTTP.stop)
	if ok && w.T != nil {
		_ = w.T.Close()
	}
	return ok
}

func (w *World) stop() bool {
	ok := true
	if w.cancel != nil {
		w.cancel()
		ok = w.Wait(5 * time.Minute)
		w.M.Stop()
	}
	return ok
}

// End stops the download and leaves the network as it is; false if the download
// does not end.
func (w *World) End() bool {
	ok := w.stop()
	if ok && w.T != nil {
		_ = w.T.Close()
	}
	return ok
}

// Addr returns the n-th address of the virtual network.
func Addr(n int) netip.AddrPort {
	return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, byte(n >> 16), byte(n >> 8), byte(n)}), uint16(6000+n%50))
}

// Addr6 gives the n-th peer an IPv6 address.
func Addr6(n int) netip.AddrPort {
	return netip.AddrPortFrom(netip.AddrFrom16([16]byte{0xfd, 0, 0, 1, 13: byte(n >> 16), 14: byte(n >> 8), 15: byte(n)}), uint16(6000+n%50))
}

// All is a set of n pieces.
func All(n int) []bool {
	b := make([]bool, n)
	for i := range b {
		b[i] = true
	}
	return b
}

// Honest is a script of a peer that has the given pieces and serves them well.
func Honest(r *rand.Rand, addr netip.AddrPort, have []bool) *Script {
	s := &Script{Addr: addr.String(), Have: have, Honest: true, Seed: r.Uint64()}
	s.ByHave = r.IntN(3) == 0
	if r.IntN(2) == 0 {
		s.HSDelay = time.Duration(r.IntN(800)) * time.Millisecond
	}
	if r.IntN(4) == 0 {
		s.HS = HSReserved
	}
	if r.IntN(2) == 0 {
		s.Unchoke = time.Duration(r.IntN(5000)) * time.Millisecond
	}
	s.UnchokeFirst = r.IntN(6) == 0
	if r.IntN(2) == 0 {
		s.DelaySpread = time.Duration(1+r.IntN(800)) * time.Millisecond
	}
	if r.IntN(3) == 0 {
		s.MaxRead = 1 + r.IntN(4000)
	}
	if r.IntN(4) == 0 {
		s.Later = map[int]time.Duration{}
		for i := range have {
			if r.IntN(3) == 0 {
				s.Later[i] = time.Duration(r.IntN(20000)) * time.Millisecond
			}
		}
	}
	if r.IntN(4) == 0 {
		s.Noise = []int{NKeepalive, NInterested, NNotInterested, NRequest, NCancel, NUnknown, NRepeatUnchoke}
		s.NoiseEvery = time.Duration(50+r.IntN(3000)) * time.Millisecond
	}
	if r.IntN(4) == 0 {
		for n := 1 + r.IntN(3); n > 0; n-- {
			s.Chokes = append(s.Chokes, Episode{time.Duration(r.IntN(10000)) * time.Millisecond, time.Duration(1+r.IntN(4000)) * time.Millisecond})
		}
	}
	if r.IntN(5) == 0 {
		s.DialDelay = time.Duration(r.IntN(1500)) * time.Millisecond
	}
	return s
}

// Hostile is a script of a peer that misbehaves in one or more ways.
func Hostile(r *rand.Rand, addr netip.AddrPort, have []bool) *Script {
	s := Honest(r, addr, have)
	s.Honest = false
	switch r.IntN(8) {
	case 0:
		s.HS = HSWrongHash + r.IntN(HSKinds-HSWrongHash)
	case 1:
		s.Blackhole = true
	case 2:
		s.Refuse = func(int) bool { return true }
	case 3:
		s.Life = time.Duration(1+r.IntN(6000)) * time.Millisecond
	case 4:
		s.Unchoke = -1
	}
	mix := make([]int, 0, 4)
	for i := 0; i < 1+r.IntN(4); i++ {
		mix = append(mix, r.IntN(AnswerKinds))
	}
	s.Answers = func(n int, r *rand.Rand) int { return mix[r.IntN(len(mix))] }
	if r.IntN(2) == 0 {
		for k := 0; k < NoiseKinds; k++ {
			s.Noise = append(s.Noise, k)
		}
		s.NoiseEvery = time.Duration(5+r.IntN(2000)) * time.Millisecond
	}
	return s
}

// Choker is slow, and chokes for good after a while.
func Choker(r *rand.Rand, addr netip.AddrPort, have []bool) *Script {
	s := Honest(r, addr, have)
	s.UnchokeFirst, s.Unchoke = true, -1
	s.Delay, s.DelaySpread = time.Duration(300+r.IntN(650))*time.Millisecond, 0
	s.Chokes = []Episode{{At: time.Duration(1+r.IntN(20000)) * time.Millisecond, For: 1000 * time.Hour}}
	return s
}

// RandHave picks a subset of n pieces.
func RandHave(r *rand.Rand, n int) []bool {
	b := make([]bool, n)
	d := 1 + r.IntN(4)
	for i := range b {
		b[i] = r.IntN(4) < d
	}
	return b
}

// Describe writes a script for traces.
func (s *Script) Describe() string {
	return fmt.Sprintf("peer %s honest=%v have=%v hs=%d byHave=%v later=%v unchoke=%v first=%v chokes=%v delay=%v+%v life=%v maxRead=%d noise=%v/%v blackhole=%v",
		s.Addr, s.Honest, bits(s.Have), s.HS, s.ByHave, s.Later, s.Unchoke, s.UnchokeFirst, s.Chokes, s.Delay, s.DelaySpread, s.Life, s.MaxRead, s.Noise, s.NoiseEvery, s.Blackhole)
}

func bits(h []bool) string {
	b := make([]byte, len(h))
	for i, x := range h {
		b[i] = '0'
		if x {
			b[i] = '1'
		}
	}
	return string(b)
}
