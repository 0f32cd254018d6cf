// Package proto is an online monitor of the peer protocol: an automaton fed with
// the bytes of one connection, both directions, as they pass.
package proto

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

// Stale is how long a request has to stay without answer before the client may
// ask again. The client's timeout is one second.
const Stale = 500 * time.Millisecond

// Event is one thing seen on a connection.
type Event struct {
	At    time.Time
	Dir   byte // '>' sent by the client, '<' consumed by the client
	Frame ref.Frame
}

// Monitor watches one session.
type Monitor struct {
	Addr   string
	Number int
	spec   *swarm.Spec
	id     []byte
	report func(string, ...any)

	mu         sync.Mutex
	opened     time.Time
	out, in    ref.Splitter // client's stream, stream as consumed by the client
	sent       ref.Splitter // stream as written by the remote
	outBytes   int
	hsSent     bool
	replied    bool // remote's handshake consumed
	valid      bool
	interested bool
	unchoked   bool
	chokedAt   time.Time
	announced  []bool
	asked      *ref.Frame // outstanding request
	askedAt    time.Time
	lastOut    time.Time
	closed     bool
	closedAt   time.Time

	Requests, Consumed, Keepalives int
	events                         []Event
	sig                            strings.Builder

	// OnRequest and OnPiece let a check follow the session.
	OnRequest func(m *Monitor, index, begin, length int)
	OnIn      func(m *Monitor, f ref.Frame)
	OnEnd     func(m *Monitor)
}

// Attach starts watching a session that was just opened.
func Attach(s *vnet.Session, spec *swarm.Spec, id []byte, report func(string, ...any)) *Monitor {
	m := &Monitor{Addr: s.Addr, Number: s.Number, spec: spec, id: id, report: report, opened: time.Now(), lastOut: time.Now(),
		announced: make([]bool, spec.NumPieces())}
	s.Client.OnWrite = m.onOut
	s.Client.OnRead = m.onIn
	s.Conn.BeforeWrite = m.onSent
	prev := s.Client.OnClose
	s.Client.OnClose = func() {
		if prev != nil {
			prev()
		}
		m.Close()
	}
	return m
}

func (m *Monitor) fail(format string, args ...any) {
	m.report("session %d with %s: %s\n%s", m.Number, m.Addr, fmt.Sprintf(format, args...), m.tail())
}

func (m *Monitor) tail() string {
	var b strings.Builder
	ev := m.events
	if len(ev) > 40 {
		ev = ev[len(ev)-40:]
	}
	for _, e := range ev {
		fmt.Fprintf(&b, "  +%s %c %s\n", e.At.Sub(m.opened), e.Dir, Name(e.Frame))
	}
	return b.String()
}

// Name describes a frame.
func Name(f ref.Frame) string {
	names := []string{"choke", "unchoke", "interested", "not interested", "have", "bitfield", "request", "piece", "cancel"}
	switch {
	case f.Type == ref.Keepalive:
		return "keepalive"
	case f.Type == ref.Request:
		return fmt.Sprintf("request %d+%d:%d", f.At(0), f.At(1), f.At(2))
	case f.Type == ref.Piece:
		return fmt.Sprintf("piece %d+%d:%d", f.At(0), f.At(1), len(f.Payload)-8)
	case f.Type == ref.Have:
		return fmt.Sprintf("have %d", f.At(0))
	case f.Type == ref.Bitfield:
		return fmt.Sprintf("bitfield %x", f.Payload)
	case f.Type < len(names):
		return names[f.Type]
	}
	return fmt.Sprintf("type %d (%d bytes)", f.Type, len(f.Payload))
}

// note records an event; memory is bounded.
func (m *Monitor) note(dir byte, f ref.Frame) {
	if f.Type == ref.Piece {
		p := f.Payload
		f.Payload = append(append([]byte(nil), p[:min(8, len(p))]...), make([]byte, max(0, len(p)-8))...)
	}
	if len(m.events) < 20000 {
		m.events = append(m.events, Event{time.Now(), dir, f})
	}
	if m.sig.Len() < 4000 {
		fmt.Fprintf(&m.sig, "%c%d", dir, f.Type)
		if f.Type == ref.Request {
			fmt.Fprintf(&m.sig, "@%d", f.At(0))
		}
	}
}

// onSent sees what the remote writes: pieces become announced.
func (m *Monitor) onSent(b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	_, frames, _ := m.sent.Feed(b, 1<<22)
	for _, f := range frames {
		switch {
		case f.Type == ref.Have && len(f.Payload) >= 4:
			if i := int(f.At(0)); i < len(m.announced) {
				m.announced[i] = true
			}
		case f.Type == ref.Bitfield:
			for i := range m.announced {
				if i/8 < len(f.Payload) && f.Payload[i/8]&(0x80>>(i%8)) != 0 {
					m.announced[i] = true
				}
			}
		}
	}
}

// onIn sees what the client consumes.
func (m *Monitor) onIn(b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	hs, frames, _ := m.in.Feed(b, 1<<22)
	if hs != nil {
		m.replied = true
		want := ref.Handshake([8]byte{}, m.spec.Hash[:], hs[48:])
		m.valid = bytes.Equal(hs[:20], want[:20]) && bytes.Equal(hs[28:48], want[28:48])
	}
	for _, f := range frames {
		m.Consumed++
		m.note('<', f)
		switch f.Type {
		case ref.Choke:
			if m.unchoked {
				m.chokedAt = time.Now()
			}
			m.unchoked = false
			m.asked = nil
		case ref.Unchoke:
			m.unchoked = true
		case ref.Piece:
			if m.asked != nil && len(f.Payload) >= 8 && f.At(0) == m.asked.At(0) && f.At(1) == m.asked.At(1) {
				m.asked = nil
			}
		}
		if m.OnIn != nil {
			m.OnIn(m, f)
		}
	}
}

// onOut sees what the client sends.
func (m *Monitor) onOut(b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(b) == 0 {
		return
	}
	now := time.Now()
	if m.closed {
		return
	}
	if m.valid {
		m.gap(now)
	}
	m.lastOut = now
	m.outBytes += len(b)
	hs, frames, over := m.out.Feed(b, 1<<18)
	if hs != nil {
		want := ref.Handshake([8]byte{}, m.spec.Hash[:], m.id)
		copy(want[20:28], hs[20:28]) // extension bits
		if !bytes.Equal(hs, want) {
			m.fail("handshake is %x, expected %x", hs, want)
			return
		}
	}
	if m.outBytes > 68 && !m.valid {
		if m.replied {
			m.fail("client goes on (%d bytes) although the peer's handshake is not for this torrent", m.outBytes-68)
		} else {
			m.fail("client sends %d bytes after its handshake without waiting for the peer's", m.outBytes-68)
		}
		return
	}
	if over {
		m.fail("client sends a frame of absurd size")
		return
	}
	for _, f := range frames {
		m.note('>', f)
		m.judge(f, now)
	}
}

func (m *Monitor) gap(now time.Time) {
	if d := now.Sub(m.lastOut); d > 2*time.Minute {
		m.fail("nothing was sent for %s", d)
	}
}

func (m *Monitor) judge(f ref.Frame, now time.Time) {
	want := map[int]int{ref.Choke: 0, ref.Unchoke: 0, ref.Interested: 0, ref.NotInterested: 0, ref.Have: 4, ref.Request: 12, ref.Cancel: 12}
	if f.Type == ref.Keepalive {
		m.Keepalives++
		return
	}
	if n, fixed := want[f.Type]; fixed && n != len(f.Payload) {
		m.fail("malformed message %s with %d bytes of payload", Name(f), len(f.Payload))
		return
	}
	switch f.Type {
	case ref.Interested:
		m.interested = true
	case ref.NotInterested:
		m.interested = false
	case ref.Cancel:
		m.asked = nil
	case ref.Request:
		m.request(f, now)
	}
}

func (m *Monitor) request(f ref.Frame, now time.Time) {
	m.Requests++
	index, begin, length := int(f.At(0)), int(f.At(1)), int(f.At(2))
	switch {
	case !m.interested:
		m.fail("%s before interest is declared", Name(f))
		return
	case !m.unchoked && (m.chokedAt.IsZero() || now.After(m.chokedAt)):
		m.fail("%s while the peer chokes the client", Name(f))
		return
	case m.asked != nil && now.Sub(m.askedAt) < Stale:
		m.fail("%s while %s, sent %s ago, is still open", Name(f), Name(*m.asked), now.Sub(m.askedAt))
		return
	case index >= m.spec.NumPieces():
		m.fail("%s: the torrent has %d pieces", Name(f), m.spec.NumPieces())
		return
	case length <= 0 || length > swarm.BlockLimit:
		m.fail("%s: bad length", Name(f))
		return
	case begin+length > m.spec.PieceSize(index):
		m.fail("%s: the piece has %d bytes", Name(f), m.spec.PieceSize(index))
		return
	case !m.announced[index]:
		m.fail("%s: the peer never announced this piece", Name(f))
		return
	}
	g := f
	m.asked = &g
	m.askedAt = now
	if m.OnRequest != nil {
		m.OnRequest(m, index, begin, length)
	}
}

// Close ends the session from the client's side.
func (m *Monitor) Close() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return
	}
	m.closed = true
	m.closedAt = time.Now()
	if m.valid {
		m.gap(m.closedAt)
	}
	if m.OnEnd != nil {
		m.OnEnd(m)
	}
}

// Check judges a session that is still open now.
func (m *Monitor) Check() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.closed && m.valid {
		m.gap(time.Now())
	}
}

// Signature is the abstract trace of the session.
func (m *Monitor) Signature() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.sig.String()
}

// Events returns what was seen.
func (m *Monitor) Events() []Event {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]Event(nil), m.events...)
}

// Valid tells if the remote's handshake was good.
func (m *Monitor) Valid() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.valid
}

// HandshakeSent tells if the client's handshake was complete.
func (m *Monitor) HandshakeSent() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.out.HandshakeDone()
}

// Announced returns the pieces the remote has announced.
func (m *Monitor) Announced() []bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]bool(nil), m.announced...)
}

// Trace writes the session out.
func (m *Monitor) Trace(began time.Time) []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := []string{fmt.Sprintf("session %d with %s opened +%s", m.Number, m.Addr, m.opened.Sub(began))}
	for i, e := range m.events {
		if i > 400 {
			break
		}
		x := ""
		if len(e.Frame.Payload) >= 4 {
			x = fmt.Sprint(e.Frame.At(0))
		}
		out = append(out, fmt.Sprintf("  +%s %c %s %s", e.At.Sub(began), e.Dir, Name(e.Frame), x))
	}
	if m.closed {
		out = append(out, fmt.Sprintf("  +%s closed", m.closedAt.Sub(began)))
	}
	return out
}
