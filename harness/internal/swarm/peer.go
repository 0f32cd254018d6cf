package swarm

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"verif/internal/ref"
	"verif/internal/vnet"
)

// Handshake variants of a scripted peer.
const (
	HSGood = iota
	HSReserved
	HSWrongHash
	HSWrongProto
	HSWrongLen
	HSGarbage
	HSShort  // part of a handshake, then silence
	HSSilent // nothing
	HSClose  // closes at once
	HSCut    // part of a handshake, then closes
	HSKinds
)

// Answers to a request.
const (
	Good = iota
	Corrupt
	Stall
	WrongIndex
	WrongOffset
	ShortData
	LongData
	EmptyData
	Duplicate // right answer twice
	CutFrame  // part of the frame, then closes
	CutStall  // part of the frame, then silence
	Hangup
	ChokeInstead  // chokes instead of answering, unchokes later
	ChokeThenGood // chokes, answers all the same, unchokes later
	KeepaliveInstead
	SwapData // the data of another piece under the asked index
	AnswerKinds
)

var answerNames = []string{"good", "corrupt", "stall", "wrong index", "wrong offset", "short data", "long data", "empty data", "duplicate",
	"cut frame", "cut and stall", "hangup", "choke instead", "choke then good", "keepalive instead", "swapped data"}

// AnswerName names an answer kind.
func AnswerName(k int) string { return answerNames[k] }

// Noise kinds sent between protocol messages.
const (
	NKeepalive = iota
	NInterested
	NNotInterested
	NRequest
	NCancel
	NUnknown
	NShortHave
	NShortPiece
	NShortRequest
	NHaveOutOfRange
	NUnsolicitedGood
	NUnsolicitedBad
	NRepeatUnchoke
	NEmptyBitfield
	NLongUnknown
	NToggleChoke
	NHaveAny
	NBitfieldAny
	NBitfieldShort
	NPieceOutside
	NoiseKinds
)

// Script is what a peer does. It is fixed before the run.
type Script struct {
	Addr string
	Have []bool
	HS   int
	// HSDelay passes before the handshake is answered.
	HSDelay time.Duration
	// Announcing: ByHave announces with have messages, Later holds pieces announced
	// only after a while.
	ByHave  bool
	Later   map[int]time.Duration
	NoField bool // announces nothing at the start
	// Twice announces some pieces with have messages before the bitfield.
	Twice bool
	// Unchoke after this time from the first interested message; negative: never.
	Unchoke time.Duration
	// UnchokeFirst unchokes before interest is declared.
	UnchokeFirst bool
	// Chokes are episodes during the session.
	Chokes []Episode
	// Delay before every answer.
	Delay, DelaySpread time.Duration
	// Answers picks the kind of the n-th answer; nil is always Good.
	Answers func(n int, r *rand.Rand) int
	// Noise kinds sent, one per NoiseEvery.
	Noise      []int
	NoiseEvery time.Duration
	// Life ends the session after this time, zero: never.
	Life time.Duration
	// WriteCap limits what the client can write before this side reads, when set.
	WriteCap int
	// MaxRead fragments what the client reads.
	MaxRead int
	// DialDelay, Refuse, Blackhole as for vnet.Host.
	DialDelay time.Duration
	Refuse    func(attempt int) bool
	Blackhole bool
	// Honest peers never lie, never leave and answer in time.
	Honest bool
	Seed   uint64
}

// Episode is a choke and the unchoke that ends it.
type Episode struct {
	At, For time.Duration
}

// Peer is a scripted peer at run time.
type Peer struct {
	*Script
	Spec *Spec

	mu       sync.Mutex
	sessions []*Remote
	// Sent counts the pieces sent intact, block-wise, over all sessions.
	answers int
	kinds   [AnswerKinds]int
	noise   int
}

// Remote is the peer's side of one session.
type Remote struct {
	P    *Peer
	S    *vnet.Session
	r    *rand.Rand
	mu   sync.Mutex
	gone bool
	// choking tells if this side chokes the client.
	choking bool
	uncDue  bool
	head    []byte // read before
}

// Stats returns how often the peer answered, and how.
func (p *Peer) Stats() (answers int, kinds [AnswerKinds]int, noise int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.answers, p.kinds, p.noise
}

// Host is the peer as a host of the network.
func (p *Peer) Host() *vnet.Host {
	return &vnet.Host{DialDelay: p.DialDelay, Refuse: p.Refuse, Blackhole: p.Blackhole, Serve: p.serve}
}

// Shared is a host where several peers with different torrents answer at one
// address: the client's handshake tells which one is meant. Sessions that ask for
// none of them are ended after stray was told the handshake.
func Shared(peers []*Peer, stray func(addr string, hs []byte)) *vnet.Host {
	var mu sync.Mutex
	asked := map[*Peer]int{}
	return &vnet.Host{Serve: func(s *vnet.Session) {
		var hs []byte
		buf := make([]byte, 68)
		for len(hs) < 68 {
			n, err := s.Conn.Read(buf[:68-len(hs)])
			if err != nil {
				return
			}
			hs = append(hs, buf[:n]...)
		}
		for _, p := range peers {
			if bytes.Equal(hs[28:48], p.Spec.Hash[:]) {
				mu.Lock()
				n := asked[p]
				asked[p]++
				mu.Unlock()
				if p.Refuse == nil || !p.Refuse(n) {
					p.serveRead(s, hs)
				}
				return
			}
		}
		stray(s.Addr, hs)
	}}
}

func (p *Peer) serve(s *vnet.Session) { p.serveRead(s, nil) }

// serveRead serves a session of which some bytes are already read.
func (p *Peer) serveRead(s *vnet.Session, head []byte) {
	if p.MaxRead > 0 {
		s.Client.SetMaxRead(p.MaxRead)
	}
	if p.WriteCap != 0 {
		s.Client.SetWriteCap(max(0, p.WriteCap))
	}
	s.Conn.SetWriteCap(-1) // never blocks: writes happen under the session's lock
	rem := &Remote{P: p, S: s, r: rand.New(rand.NewPCG(p.Seed, uint64(s.Number)+1)), choking: true, head: head}
	rem.run()
}

// later runs fn after d unless the session is over.
func (m *Remote) later(d time.Duration, fn func()) {
	time.AfterFunc(d, func() {
		m.mu.Lock()
		defer m.mu.Unlock()
		if !m.gone {
			fn()
		}
	})
}

// write sends bytes; with m.mu held.
func (m *Remote) write(b []byte) {
	if m.gone {
		return
	}
	m.put(b)
}

func (m *Remote) put(b []byte) { _, _ = m.S.Conn.Write(b) }

func (m *Remote) frame(f ref.Frame) { m.write(f.Bytes()) }

func (m *Remote) end() {
	if !m.gone {
		m.gone = true
		_ = m.S.Conn.Close()
	}
}

func (m *Remote) run() {
	p := m.P
	defer func() {
		m.mu.Lock()
		m.end()
		m.mu.Unlock()
	}()
	var sp ref.Splitter
	buf := make([]byte, 64*1024)
	read := func() (hs []byte, fr []ref.Frame, ok bool) {
		n, err := m.S.Conn.Read(buf)
		if err != nil {
			return nil, nil, false
		}
		hs, fr, over := sp.Feed(buf[:n], 1<<21)
		return hs, fr, !over
	}
	if p.HS == HSClose {
		return
	}
	var pending []ref.Frame
	sp.Feed(m.head, 1<<21)
	for !sp.HandshakeDone() {
		_, fr, ok := read()
		if !ok {
			return
		}
		pending = append(pending, fr...)
	}
	if p.HSDelay > 0 {
		time.Sleep(p.HSDelay)
	}
	if !m.handshake() {
		// swallow what comes until the client leaves
		for {
			if _, _, ok := read(); !ok {
				return
			}
		}
	}
	m.mu.Lock()
	m.opening()
	m.mu.Unlock()
	for {
		for _, f := range pending {
			m.mu.Lock()
			m.handle(f)
			gone := m.gone
			m.mu.Unlock()
			if gone {
				return
			}
		}
		_, fr, ok := read()
		if !ok {
			return
		}
		pending = fr
	}
}

// handshake answers; false when the session cannot go on.
func (m *Remote) handshake() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	p := m.P
	id := []byte(fmt.Sprintf("-VP0001-%012d", m.r.IntN(1e9)))
	var reserved [8]byte
	hash := p.Spec.Hash[:]
	hs := ref.Handshake(reserved, hash, id)
	switch p.HS {
	case HSGood:
	case HSReserved:
		for i := range reserved {
			reserved[i] = byte(m.r.IntN(256))
		}
		hs = ref.Handshake(reserved, hash, id)
	case HSWrongHash:
		h := append([]byte(nil), hash...)
		h[m.r.IntN(20)] ^= byte(1 << m.r.IntN(8))
		hs = ref.Handshake(reserved, h, id)
	case HSWrongProto:
		hs[1+m.r.IntN(19)] ^= byte(1 << m.r.IntN(7))
	case HSWrongLen:
		hs[0] = byte(m.r.IntN(19))
	case HSGarbage:
		for i := range hs {
			hs[i] = byte(m.r.IntN(256))
		}
	case HSShort:
		m.write(hs[:m.r.IntN(68)])
		return false
	case HSSilent:
		return false
	case HSCut:
		m.write(hs[:m.r.IntN(68)])
		m.end()
		return false
	}
	m.write(hs)
	return p.HS == HSGood || p.HS == HSReserved
}

func (m *Remote) opening() {
	p := m.P
	now := make([]bool, len(p.Have))
	for i, h := range p.Have {
		if _, late := p.Later[i]; h && !late {
			now[i] = true
		}
	}
	if !p.NoField {
		if p.ByHave {
			for i, h := range now {
				if h {
					m.frame(ref.HaveFrame(uint32(i)))
				}
			}
		} else {
			for i, h := range now {
				if p.Twice && h && i%3 == 0 {
					m.frame(ref.HaveFrame(uint32(i)))
				}
			}
			m.frame(ref.BitfieldFrame(now))
		}
	}
	for i := range p.Have {
		if d, late := p.Later[i]; p.Have[i] && (late || p.NoField) {
			m.later(d, func() { m.frame(ref.HaveFrame(uint32(i))) })
		}
	}
	if p.UnchokeFirst {
		m.unchoke()
	}
	for _, e := range p.Chokes {
		m.later(e.At, func() {
			m.choke()
			m.later(e.For, m.unchoke)
		})
	}
	if p.Life > 0 {
		m.later(p.Life, m.end)
	}
	if len(p.Noise) > 0 && p.NoiseEvery > 0 {
		m.later(p.NoiseEvery, m.makeNoise)
	}
}

func (m *Remote) choke() {
	m.choking = true
	m.frame(ref.Frame{Type: ref.Choke})
}

func (m *Remote) unchoke() {
	m.choking = false
	m.frame(ref.Frame{Type: ref.Unchoke})
}

func (m *Remote) makeNoise() {
	p, r := m.P, m.r
	p.mu.Lock()
	p.noise++
	p.mu.Unlock()
	n := p.Spec.NumPieces()
	if n == 0 {
		return
	}
	i := r.IntN(n)
	switch p.Noise[r.IntN(len(p.Noise))] {
	case NKeepalive:
		m.frame(ref.Frame{Type: ref.Keepalive})
	case NInterested:
		m.frame(ref.Frame{Type: ref.Interested})
	case NNotInterested:
		m.frame(ref.Frame{Type: ref.NotInterested})
	case NRequest:
		m.frame(ref.RequestFrame(r.Uint32(), r.Uint32(), r.Uint32()))
	case NCancel:
		m.frame(ref.Frame{Type: ref.Cancel, Payload: ref.U32(r.Uint32(), r.Uint32(), r.Uint32())})
	case NUnknown:
		m.frame(ref.Frame{Type: 9 + r.IntN(240), Payload: make([]byte, r.IntN(40))})
	case NShortHave:
		m.frame(ref.Frame{Type: ref.Have, Payload: make([]byte, r.IntN(4))})
	case NShortPiece:
		m.frame(ref.Frame{Type: ref.Piece, Payload: make([]byte, r.IntN(8))})
	case NShortRequest:
		m.frame(ref.Frame{Type: ref.Request, Payload: make([]byte, r.IntN(12))})
	case NHaveOutOfRange:
		// also numbers that some narrower type would take for a piece
		out := uint32(i) + uint32(1)<<(8+r.IntN(24))
		if r.IntN(2) == 0 || int(out) < n {
			out = uint32(n + r.IntN(1<<20))
		}
		m.frame(ref.HaveFrame(out))
	case NUnsolicitedGood:
		if p.Spec.PieceSize(i) < 1<<19 {
			m.frame(ref.PieceFrame(uint32(i), 0, p.Spec.Piece(i)))
		}
	case NUnsolicitedBad:
		bad := make([]byte, r.IntN(200))
		fill(r, bad)
		m.frame(ref.PieceFrame(uint32(i), uint32(r.IntN(3)), bad))
	case NRepeatUnchoke:
		if !m.choking {
			m.frame(ref.Frame{Type: ref.Unchoke})
		}
	case NEmptyBitfield:
		m.frame(ref.Frame{Type: ref.Bitfield})
	case NLongUnknown:
		m.frame(ref.Frame{Type: 20, Payload: bytes.Repeat([]byte{7}, 1000+r.IntN(5000))})
	case NToggleChoke:
		if m.choking {
			m.unchoke()
		} else {
			m.choke()
		}
	case NHaveAny:
		m.frame(ref.HaveFrame(uint32(i)))
	case NBitfieldAny: // with spare bits set
		b := ref.BitfieldFrame(RandHave(r, n))
		if n%8 != 0 {
			b.Payload[len(b.Payload)-1] |= 0xff >> (n % 8)
		}
		m.frame(b)
	case NPieceOutside: // right data at an impossible place
		idx, off := uint32(n+r.IntN(3)), uint32(0)
		switch r.IntN(4) {
		case 0:
			idx = r.Uint32()
		case 1:
			idx, off = uint32(i), uint32(p.Spec.PieceSize(i)+r.IntN(3))
		case 2:
			idx, off = uint32(i), 0xffffffff-uint32(r.IntN(20))
		}
		m.frame(ref.PieceFrame(idx, off, p.Spec.Piece(i)[:min(1000, p.Spec.PieceSize(i))]))
	case NBitfieldShort:
		b := ref.BitfieldFrame(RandHave(r, n))
		b.Payload = b.Payload[:r.IntN(len(b.Payload)+1)]
		if r.IntN(2) == 0 {
			b.Payload = append(b.Payload, 0xff, 0xff, 0xff)
		}
		m.frame(b)
	}
	if !m.gone {
		m.later(p.NoiseEvery, m.makeNoise)
	}
}

func (m *Remote) handle(f ref.Frame) {
	p := m.P
	switch f.Type {
	case ref.Interested:
		if m.choking && !m.uncDue && p.Unchoke >= 0 {
			m.uncDue = true
			if p.Unchoke == 0 {
				m.uncDue = false
				m.unchoke()
			} else {
				m.later(p.Unchoke, func() {
					m.uncDue = false
					m.unchoke()
				})
			}
		}
	case ref.Request:
		if m.choking && p.Honest {
			return // a choking peer drops requests
		}
		d := p.Delay
		if p.DelaySpread > 0 {
			d += time.Duration(m.r.Int64N(int64(p.DelaySpread)))
		}
		if d == 0 {
			m.answer(f)
		} else {
			m.later(d, func() { m.answer(f) })
		}
	}
}

func (m *Remote) answer(f ref.Frame) {
	p := m.P
	if m.choking && p.Honest {
		return
	}
	index, begin, length := int(f.At(0)), int(f.At(1)), int(f.At(2))
	sp := p.Spec
	if index >= sp.NumPieces() || begin+length > sp.PieceSize(index) || !p.Have[index] || length == 0 {
		return // the protocol monitors judge it
	}
	data := append([]byte(nil), sp.Piece(index)[begin:begin+length]...)
	p.mu.Lock()
	n := p.answers
	p.answers++
	p.mu.Unlock()
	kind := Good
	if p.Answers != nil {
		kind = p.Answers(n, m.r)
	}
	p.mu.Lock()
	p.kinds[kind]++
	p.mu.Unlock()
	good := ref.PieceFrame(uint32(index), uint32(begin), data)
	switch kind {
	case Good:
		m.frame(good)
	case Corrupt:
		data[m.r.IntN(len(data))] ^= byte(1 << m.r.IntN(8))
		m.frame(ref.PieceFrame(uint32(index), uint32(begin), data))
	case Stall:
	case WrongIndex:
		m.frame(ref.PieceFrame(uint32((index+1)%sp.NumPieces()), uint32(begin), data))
	case WrongOffset:
		m.frame(ref.PieceFrame(uint32(index), uint32(begin+1+m.r.IntN(64)), data))
	case ShortData:
		m.frame(ref.PieceFrame(uint32(index), uint32(begin), data[:m.r.IntN(len(data))]))
	case LongData:
		m.frame(ref.PieceFrame(uint32(index), uint32(begin), append(data, 1, 2, 3)))
	case EmptyData:
		m.frame(ref.PieceFrame(uint32(index), uint32(begin), nil))
	case Duplicate:
		m.frame(good)
		m.frame(good)
	case CutFrame:
		b := good.Bytes()
		m.put(b[:m.r.IntN(len(b))])
		m.end()
	case CutStall:
		b := good.Bytes()
		m.put(b[:1+m.r.IntN(len(b)-1)])
		m.gone = true // nothing more is written; the client has to leave
	case Hangup:
		m.end()
	case ChokeInstead:
		m.choke()
		m.later(time.Duration(1+m.r.IntN(3000))*time.Millisecond, m.unchoke)
	case ChokeThenGood:
		m.choke()
		m.frame(good)
		m.later(time.Duration(1+m.r.IntN(3000))*time.Millisecond, m.unchoke)
	case KeepaliveInstead:
		m.frame(ref.Frame{Type: ref.Keepalive})
	case SwapData:
		o := (index + 1 + m.r.IntN(max(1, sp.NumPieces()-1))) % sp.NumPieces()
		d := sp.Piece(o)
		if len(d) > length {
			d = d[:length]
		}
		m.frame(ref.PieceFrame(uint32(index), uint32(begin), d))
	}
}
