package c09

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/bits-and-blooms/bitset"

	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"

	"verif/internal/mon"
	"verif/internal/proto"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C09",
		mon.Family{Name: "histories", Quick: 4500, Thorough: 45000, Fn: histories},
		mon.Family{Name: "stress", Quick: 72, Thorough: 720, Fn: stress},
		mon.Family{Name: "sessions", Quick: 2400, Thorough: 24000, Fn: func(c *mon.Case) { sessions(c, false) }},
		mon.Family{Name: "multiblock", Quick: 360, Thorough: 3600, Fn: func(c *mon.Case) { sessions(c, true) }},
		mon.Family{Name: "handback", Quick: 960, Thorough: 9600, Fn: handback},
	)
}

var url = []string{"http://tracker.test/announce"}

func load(c *mon.Case, n int) (*torrent.Torrent, func()) {
	dir, clean := c.Dir()
	spec := swarm.NewSpec(c.R, "t", true, []swarm.File{{Length: n*2 - 1}}, 2, url, nil)
	w := &swarm.World{C: c, Spec: spec, Dir: dir}
	w.Load()
	return w.T, func() { _ = w.T.Close(); clean() }
}

func set(have []bool, size int) *bitset.BitSet {
	b := bitset.New(uint(size))
	for i, h := range have {
		if h && i < size {
			b.Set(uint(i))
		}
	}
	return b
}

type input struct{ have uint64 }
type output struct {
	i  uint
	ok bool
}

var model = porcupine.Model{
	Init: func() any { return uint64(0) },
	Step: func(state, in, out any) (bool, any) {
		s, h, o := state.(uint64), in.(input).have, out.(output)
		if !o.ok {
			return h&^s == 0, s
		}
		bit := uint64(1) << o.i
		return o.i < 64 && h&bit != 0 && s&bit == 0, s | bit
	},
}

// histories records concurrent calls and asks for a sequential explanation.
func histories(c *mon.Case) {
	r := c.R
	n := 1 + r.IntN(10)
	t, clean := load(c, n)
	defer clean()
	workers := 2 + r.IntN(5)
	var clock atomic.Int64
	var mu sync.Mutex
	var ops []porcupine.Operation
	var wg sync.WaitGroup
	start := make(chan struct{})
	for id := 0; id < workers; id++ {
		calls := 1 + r.IntN(4)
		haves := make([][]bool, calls)
		base := swarm.RandHave(r, n)
		for k := range haves {
			haves[k] = base
			if r.IntN(3) == 0 {
				haves[k] = swarm.RandHave(r, n)
			}
		}
		// sets may know less or more than the torrent
		size := n
		if r.IntN(4) == 0 {
			size = r.IntN(80)
			if r.IntN(3) == 0 {
				size = r.IntN(n + 1)
			}
			if size > n {
				for k := range haves {
					haves[k] = append(append([]bool(nil), haves[k]...), swarm.All(size-n)...)
				}
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, h := range haves {
				var mask uint64
				for i := 0; i < n && i < size; i++ {
					if h[i] {
						mask |= 1 << i
					}
				}
				b := set(h, size)
				call := clock.Add(1)
				i, ok := t.Next(b)
				ret := clock.Add(1)
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: id, Input: input{mask}, Call: call, Output: output{i, ok}, Return: ret})
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, o := range ops {
		c.Logf("[%d,%d] client %d have %b -> %v", o.Call, o.Return, o.ClientId, o.Input.(input).have, o.Output)
	}
	given := map[uint]bool{}
	for _, o := range ops {
		out := o.Output.(output)
		if !out.ok {
			continue
		}
		c.Check(int(out.i) < n, "piece %d of a torrent with %d pieces is handed out", out.i, n)
		c.Check(!given[out.i], "piece %d is handed out twice", out.i)
		c.Check(o.Input.(input).have&(1<<out.i) != 0, "piece %d is handed to a peer that has not announced it", out.i)
		given[out.i] = true
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 5*time.Second) {
	case porcupine.Illegal:
		c.Fail("no sequential order explains the assignment history of %d calls", len(ops))
	case porcupine.Unknown:
		c.Count("histories undecided", 1)
	}
	overlap := 0
	for i := range ops {
		for j := range ops {
			if ops[i].ClientId < ops[j].ClientId && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
				overlap++
			}
		}
	}
	c.Eval(1)
	c.Count("assignment calls", len(ops))
	c.Count("overlapping call pairs", overlap)
	c.Distinct(fmt.Sprint(ops))
}

// stress lets many peers take everything at once.
func stress(c *mon.Case) {
	r := c.R
	n := 500 + r.IntN(3000)
	t, clean := load(c, n)
	defer clean()
	workers := 8
	got := make([][]uint, workers)
	haves := make([][]bool, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for id := range got {
		haves[id] = swarm.RandHave(r, n)
		b := set(haves[id], n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for {
				i, ok := t.Next(b)
				if !ok {
					return
				}
				got[id] = append(got[id], i)
				if len(got[id]) > 2*n {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	owner := map[uint]int{}
	for id := range got {
		for _, i := range got[id] {
			c.Check(int(i) < n, "piece %d of %d is handed out", i, n)
			c.Check(haves[id][i], "piece %d is handed to a peer without it", i)
			if o, dup := owner[i]; dup {
				c.Fail("piece %d is handed to callers %d and %d", i, o, id)
			}
			owner[i] = id
		}
	}
	for id := range haves {
		for i, h := range haves[id] {
			if _, taken := owner[uint(i)]; h && !taken {
				c.Fail("caller %d was told there is nothing left although piece %d was free", id, i)
			}
		}
	}
	c.Eval(1)
	c.Count("assignment calls", len(owner)+workers)
	c.Distinct(n, fmt.Sprint(got))
}

// owner follows who works on which piece.
type owner struct {
	c    *mon.Case
	spec *swarm.Spec
	mu   sync.Mutex
	hold map[*proto.Monitor]*holding
	open map[*proto.Monitor]*state
	// conflicts are judged when it is known how the other session ended.
	conflicts []conflict
	requests  int
	handovers int
	last      map[int]*proto.Monitor
	ended     map[*proto.Monitor]time.Time
	completed map[int]bool
	all       []*proto.Monitor
	began     time.Time
}

type holding struct {
	piece  int
	blocks map[int]bool
	last   time.Time
	since  time.Time
}

type state struct {
	unchoked  bool
	idleSince time.Time // nothing asked for
}

type conflict struct {
	at    time.Time
	other *proto.Monitor
	text  string
}

func newOwner(c *mon.Case, spec *swarm.Spec) *owner {
	return &owner{began: time.Now(), c: c, spec: spec, hold: map[*proto.Monitor]*holding{}, open: map[*proto.Monitor]*state{}, last: map[int]*proto.Monitor{},
		ended: map[*proto.Monitor]time.Time{}, completed: map[int]bool{}}
}

func (o *owner) attach(v *vnet.Session) {
	m := proto.Attach(v, o.spec, peer.ClientId, func(string, ...any) {})
	o.mu.Lock()
	o.open[m] = &state{idleSince: time.Now()}
	o.all = append(o.all, m)
	o.mu.Unlock()
	m.OnRequest = o.request
	m.OnIn = o.in
	m.OnEnd = func(m *proto.Monitor) {
		o.mu.Lock()
		defer o.mu.Unlock()
		o.ended[m] = time.Now()
		delete(o.hold, m)
		delete(o.open, m)
	}
}

// fresh is how recently a holder must have been active to be surely the owner;
// the client gives a request up after a second.
const fresh = 900 * time.Millisecond

func (o *owner) request(m *proto.Monitor, index, begin, length int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	now := time.Now()
	o.requests++
	if st := o.open[m]; st != nil {
		st.idleSince = time.Time{}
	}
	for other, h := range o.hold {
		if other != m && h.piece == index && now.Sub(h.last) < fresh {
			o.conflicts = append(o.conflicts, conflict{now, other, fmt.Sprintf("piece %d is requested from %s while %s, asked %s ago, still works on it", index, m.Addr, other.Addr, now.Sub(h.last))})
		}
	}
	h := o.hold[m]
	if h == nil || h.piece != index {
		h = &holding{piece: index, blocks: map[int]bool{}, since: now}
		o.hold[m] = h
	}
	if p := o.last[index]; p != nil && p != m {
		o.handovers++
	}
	o.last[index] = m
	h.last = now
}

func (o *owner) in(m *proto.Monitor, f ref.Frame) {
	o.mu.Lock()
	defer o.mu.Unlock()
	now := time.Now()
	st := o.open[m]
	switch f.Type {
	case ref.Choke:
		delete(o.hold, m)
		if st != nil {
			st.unchoked = false
		}
	case ref.Unchoke:
		if st != nil && !st.unchoked {
			st.unchoked = true
			st.idleSince = now
		}
	case ref.Piece:
		h := o.hold[m]
		if h == nil || len(f.Payload) < 8 || int(f.At(0)) != h.piece {
			return
		}
		begin, data := int(f.At(1)), f.Payload[8:]
		size := o.spec.PieceSize(h.piece)
		if begin+len(data) > size || !bytes.Equal(o.spec.Piece(h.piece)[begin:begin+len(data)], data) || len(data) == 0 {
			// wrong data: the peer has failed
			delete(o.hold, m)
			return
		}
		h.blocks[begin] = true
		h.last = now
		if len(h.blocks)*swarm.BlockLimit >= size {
			o.completed[h.piece] = true
			delete(o.hold, m)
			if st != nil {
				st.idleSince = now
			}
		}
	}
}

// idle finds a session that has been waiting for work although a piece its peer
// announced is in nobody's hands.
func (o *owner) idle(limit time.Duration) {
	// the monitors' locks are taken before the owner's, never after
	announced := map[*proto.Monitor][]bool{}
	o.mu.Lock()
	for m := range o.open {
		announced[m] = nil
	}
	o.mu.Unlock()
	for m := range announced {
		if m.Valid() {
			announced[m] = m.Announced()
		}
	}
	if text := o.idler(limit, announced); text != "" {
		o.dump()
		o.c.Report("%s", text)
	}
}

func (o *owner) idler(limit time.Duration, announced map[*proto.Monitor][]bool) string {
	o.mu.Lock()
	defer o.mu.Unlock()
	now := time.Now()
	for m, st := range o.open {
		if !st.unchoked || st.idleSince.IsZero() || now.Sub(st.idleSince) < limit || o.hold[m] != nil {
			continue
		}
		for i, have := range announced[m] {
			if !have || o.completed[i] {
				continue
			}
			held := false
			for _, h := range o.hold {
				// a stalled holder loses the piece sooner or later
				if h.piece == i && now.Sub(h.last) < limit {
					held = true
				}
			}
			if f, ok := o.freeSince(i, now, limit); !held && ok {
				return fmt.Sprintf("%s has been idle for %s although it announced piece %d, which nobody has worked on for %s", m.Addr, now.Sub(st.idleSince), i, f)
			}
		}
	}
	return ""
}

// freeSince tells how long nobody has worked on a piece.
func (o *owner) freeSince(i int, now time.Time, limit time.Duration) (time.Duration, bool) {
	m := o.last[i]
	if m == nil {
		return limit, true
	}
	end, over := o.ended[m]
	if !over {
		if h := o.hold[m]; h != nil && h.piece == i {
			return now.Sub(h.last), now.Sub(h.last) >= limit
		}
		return limit, true // choked or sent wrong data
	}
	return now.Sub(end), now.Sub(end) >= limit
}

// dump writes what was seen into the trace.
func (o *owner) dump() {
	o.mu.Lock()
	all, began := o.all, o.began
	o.mu.Unlock()
	for _, m := range all {
		for _, l := range m.Trace(began) {
			o.c.Logf("%s", l)
		}
	}
}

func (o *owner) judge() {
	o.mu.Lock()
	conflicts, ended := o.conflicts, o.ended
	o.mu.Unlock()
	for _, x := range conflicts {
		if end, over := ended[x.other]; over && !end.After(x.at) {
			continue // that session was ending at this very instant
		}
		o.dump()
		o.c.Report("%s", x.text)
	}
}

func scripts(r *rand.Rand, spec *swarm.Spec, big bool) []*swarm.Script {
	n := spec.NumPieces()
	var out []*swarm.Script
	for i := 0; i < 2+r.IntN(5); i++ {
		have := swarm.RandHave(r, n)
		if r.IntN(2) == 0 {
			have = swarm.All(n)
		}
		if r.IntN(2) == 0 {
			out = append(out, swarm.Honest(r, swarm.Addr(i+1), have))
			continue
		}
		s := swarm.Hostile(r, swarm.Addr(i+1), have)
		// these make "who announced what" ambiguous
		var noise []int
		for _, k := range s.Noise {
			switch k {
			case swarm.NEmptyBitfield, swarm.NBitfieldAny, swarm.NBitfieldShort, swarm.NHaveAny, swarm.NUnsolicitedGood, swarm.NPieceOutside, swarm.NToggleChoke:
			default:
				noise = append(noise, k)
			}
		}
		s.Noise = noise
		out = append(out, s)
	}
	return out
}

func sessions(c *mon.Case, big bool) {
	r := c.R
	sh := swarm.Shape{Trackers: url, Big: big, MaxPieces: 15}
	if big {
		sh.MaxPieces = 4
	} else if r.IntN(6) == 0 {
		sh.MaxPieces, sh.MaxPieceLen = 200, 40
	}
	spec := swarm.Gen(r, sh)
	drive(c, spec, scripts(r, spec, big), time.Duration(20+r.IntN(60))*time.Second)
}

// handback gives one piece to a peer that fails in a known way, with another one
// waiting to take over.
func handback(c *mon.Case) {
	r := c.R
	var i int
	fmt.Sscanf(c.ID, "handback/%d", &i)
	kind := i % swarm.AnswerKinds
	spec := swarm.Gen(r, swarm.Shape{Trackers: url, Big: i/swarm.AnswerKinds%2 == 0, MaxPieces: 2})
	n := spec.NumPieces()
	bad := swarm.Hostile(r, swarm.Addr(1), swarm.All(n))
	bad.HS, bad.Refuse, bad.Blackhole, bad.Later, bad.Noise, bad.Life = swarm.HSGood, nil, false, nil, nil, 0
	bad.Unchoke, bad.HSDelay, bad.Chokes, bad.DialDelay = 0, 0, nil, 0
	bad.Answers = func(int, *rand.Rand) int { return kind }
	good := swarm.Honest(r, swarm.Addr(2), swarm.All(n))
	good.Unchoke, good.Chokes, good.Later, good.NoField = time.Duration(200+r.IntN(3000))*time.Millisecond, nil, nil, false
	good.UnchokeFirst = false
	drive(c, spec, []*swarm.Script{bad, good}, 2*time.Minute)
}

func drive(c *mon.Case, spec *swarm.Spec, list []*swarm.Script, limit time.Duration) {
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		o := newOwner(c, spec)
		w.Net.OnSession = o.attach
		var addrs []netip.AddrPort
		for _, s := range list {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		c.Logf("%s", spec)
		w.AddTracker(&swarm.Tracker{URL: url[0], Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(30)}
		}})
		w.Start(50, 6881)
		for end := time.Now().Add(limit); time.Now().Before(end) && !w.Wait(time.Second); {
			o.idle(20 * time.Second)
			if c.Violated() {
				break
			}
		}
		w.Finish()
		o.judge()
		c.Eval(1)
		c.Count("requests followed", o.requests)
		c.Count("pieces handed to another peer", o.handovers)
		c.Count("sessions", len(o.ended))
		if o.requests > 0 {
			c.Distinct(spec.String(), o.requests, o.handovers, len(o.ended))
			c.Sample("%s: %d peers, %d sessions, %d requests, %d handovers", spec, len(list), len(o.ended), o.requests, o.handovers)
		}
	})
}
