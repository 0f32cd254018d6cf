package c17

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"net/netip"
	"slices"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/tracker"

	"verif/internal/mon"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C17",
		mon.Family{Name: "exchange", Quick: 20000, Thorough: 200000, Fn: func(c *mon.Case) { exchange(c, 1) }},
		mon.Family{Name: "sequence", Quick: 12500, Thorough: 125000, Fn: func(c *mon.Case) { exchange(c, 2+c.R.IntN(6)) }},
		mon.Family{Name: "good", Quick: 7500, Thorough: 75000, Fn: good},
		mon.Family{Name: "loopback", Quick: 400, Thorough: 4000, Fn: loopback},
	)
}

const (
	magic = 0x41727101980
	// the client's timeout for one operation is half a second; an exchange has
	// two waits, writes end at once
	limit = 3 * time.Second
)

// kinds of replies to a connect or announce.
const (
	right       = iota
	rightLong   // connect only: more than the 16 bytes
	wrongTid    // foreign
	oldTid      // of an earlier request
	nearTid     // off by one bit
	wrongAction // a known other kind
	oddAction   // unknown kind
	short
	empty
	errorReply
	errorForeign // error with another transaction id
	errorShort
	silent
	late  // right, but after the timeout
	twice // the right reply two times
	foreignThenRight
	rightThenForeign
	writeFails
	garbage
	swapped // action and transaction swapped
	kinds
)

var names = []string{"right", "right and longer", "wrong transaction", "earlier transaction", "transaction off by a bit", "other action", "unknown action", "short", "empty",
	"error", "foreign error", "short error", "silence", "late", "twice", "foreign, then right", "right, then foreign", "write failure", "garbage", "fields swapped"}

type remote struct {
	c  *mon.Case
	mu sync.Mutex
	r  *rand.Rand

	connKind, annKind int
	annPeers          []netip.AddrPort
	tail              int // bytes after the last peer

	hash  string
	data  gotit.AnnounceData
	conns map[uint64]bool // ids given and not refused
	last  uint64
	tids  map[uint32]int
	tid   uint32 // of the last connect
	old   []uint32

	connected bool // a connect of this announce got a right reply

	sentConnects, sentAnnounces int
	accepted                    bool // the announce got a right reply
	open                        bool // outcome is not decided by the rules
	bad                         string
	trace                       []string
	failWrite                   bool
}

func (m *remote) fail(format string, args ...any) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(format, args...)
	}
}

func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func (m *remote) packet(c *vnet.PacketConn, b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.trace = append(m.trace, fmt.Sprintf("<- %x", b))
	if len(b) < 16 {
		m.fail("packet of %d bytes: %x", len(b), b)
		return
	}
	action, tid := binary.BigEndian.Uint32(b[8:]), binary.BigEndian.Uint32(b[12:])
	m.tids[tid]++
	if m.tids[tid] > 1 {
		m.fail("transaction id %08x is used again", tid)
	}
	switch action {
	case 0:
		m.sentConnects++
		if len(b) != 16 || binary.BigEndian.Uint64(b) != magic {
			m.fail("connect request is %x", b)
		}
		m.tid = tid
		id := m.r.Uint64()
		if m.r.IntN(6) == 0 {
			id = []uint64{0, 1, math.MaxUint64, 1 << 63, magic, 0x80}[m.r.IntN(6)]
		}
		good := append(append(u32(0), u32(tid)...), binary.BigEndian.AppendUint64(nil, id)...)
		if m.reply(c, m.connKind, good, tid, 0, 16) {
			m.last = id
			m.conns[id] = true
			m.connected = true
		}
	case 1:
		m.sentAnnounces++
		if len(b) != 98 {
			m.fail("announce has %d bytes: %x", len(b), b)
			return
		}
		id := binary.BigEndian.Uint64(b)
		if !m.connected {
			m.fail("announce is sent although its connect got no right reply")
		}
		if !m.conns[id] {
			m.fail("announce carries connection id %016x, given was %016x", id, m.last)
		}
		if id != m.last && !m.open {
			m.fail("announce carries connection id %016x, the last given is %016x", id, m.last)
		}
		for _, f := range []struct {
			name      string
			got, want []byte
		}{
			{"info hash", b[16:36], []byte(m.hash)},
			{"peer id", b[36:56], peer.ClientId},
			{"downloaded", b[56:64], binary.BigEndian.AppendUint64(nil, m.data.Downloaded)},
			{"left", b[64:72], binary.BigEndian.AppendUint64(nil, m.data.Left)},
			{"uploaded", b[72:80], binary.BigEndian.AppendUint64(nil, m.data.Uploaded)},
			{"port", b[96:98], binary.BigEndian.AppendUint16(nil, uint16(m.data.Port))},
		} {
			if !bytes.Equal(f.got, f.want) {
				m.fail("announce has %s %x, want %x", f.name, f.got, f.want)
			}
		}
		if e := binary.BigEndian.Uint32(b[80:]); e > 3 {
			m.fail("announce has event %d", e)
		}
		good := append(append(u32(1), u32(tid)...), u32(uint32(m.r.IntN(4000)))...)
		good = append(good, u32(m.r.Uint32())...)
		good = append(good, u32(m.r.Uint32())...)
		good = append(good, swarm.Compact(m.annPeers)...)
		good = append(good, make([]byte, m.tail)...)
		if m.reply(c, m.annKind, good, tid, 1, 20) {
			m.accepted = true
		}
	default:
		m.fail("packet with action %d: %x", action, b)
	}
	m.old = append(m.old, tid)
}

// reply sends what the kind asks for and tells if the right answer is the first
// thing that arrives in time.
func (m *remote) reply(c *vnet.PacketConn, kind int, good []byte, tid, action uint32, size int) bool {
	put := func(b []byte) {
		m.trace = append(m.trace, fmt.Sprintf("-> %x", b[:min(len(b), 60)]))
		c.Deliver(b)
	}
	with := func(off int, v uint32) []byte {
		b := bytes.Clone(good)
		binary.BigEndian.PutUint32(b[off:], v)
		return b
	}
	foreign := func() []byte { return with(4, tid^(1+m.r.Uint32N(math.MaxUint32))) }
	switch kind {
	case right:
		put(good)
		return true
	case rightLong:
		if action == 0 {
			m.open = true
			put(append(good, 1, 2, 3))
			return true
		}
		put(good)
		return true
	case wrongTid:
		put(foreign())
	case oldTid:
		if len(m.old) > 0 {
			put(with(4, m.old[m.r.IntN(len(m.old))]))
		} else {
			put(with(4, 0))
		}
	case nearTid:
		put(with(4, tid^(1<<m.r.IntN(32))))
	case wrongAction:
		b := with(0, []uint32{1, 0}[action])
		if m.r.IntN(3) == 0 {
			b = with(0, 2)
		}
		if len(b) < 26 {
			b = append(b, make([]byte, 26-len(b))...)
		}
		put(b)
	case oddAction:
		put(with(0, []uint32{4, 255, 256, 1 << 24, math.MaxUint32, action + 1<<8, action | 1<<31}[m.r.IntN(7)]))
	case short:
		put(good[:m.r.IntN(size)])
	case empty:
		put(nil)
	case errorReply:
		put(append(append(u32(3), u32(tid)...), []byte("unregistered torrent at this tracker, go away")[:m.r.IntN(45)]...))
	case errorForeign:
		put(append(append(u32(3), u32(tid+1)...), "no"...))
	case errorShort:
		put(u32(3)[:m.r.IntN(5)])
	case silent:
	case late:
		m.open = true // it may be taken for a later request's answer, which is refused
		c.DeliverAfter(time.Duration(600+m.r.IntN(3000))*time.Millisecond, good)
	case twice:
		m.open = true
		put(good)
		put(good)
		return true
	case foreignThenRight:
		m.open = true
		put(foreign())
		put(good)
		return true
	case rightThenForeign:
		m.open = true
		put(good)
		put(foreign())
		return true
	case garbage:
		b := make([]byte, m.r.IntN(200))
		for i := range b {
			b[i] = byte(m.r.IntN(256))
		}
		if len(b) >= 8 && binary.BigEndian.Uint32(b[4:]) == tid {
			b[4] ^= 1
		}
		put(b)
	case swapped:
		b := with(0, tid)
		binary.BigEndian.PutUint32(b[4:], action)
		if tid == action {
			return false
		}
		put(b)
	case writeFails:
		// the request is taken as lost
	}
	return false
}

func randNum(r *rand.Rand) uint64 {
	return []uint64{0, 1, 255, 1 << 31, 1 << 32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, r.Uint64(), r.Uint64() >> uint(r.IntN(64))}[r.IntN(10)]
}

func randPeers(r *rand.Rand, n int) []netip.AddrPort {
	out := make([]netip.AddrPort, n)
	for i := range out {
		var ip [4]byte
		for j := range ip {
			ip[j] = byte(1 + r.IntN(255))
		}
		out[i] = netip.AddrPortFrom(netip.AddrFrom4(ip), uint16(1+r.IntN(65535)))
		if i > 0 && r.IntN(10) == 0 {
			out[i] = out[i-1]
		}
	}
	return out
}

func randHash(r *rand.Rand) string {
	b := make([]byte, 20)
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return string(b)
}

func exchange(c *mon.Case, n int) {
	r := c.R
	seed := r.Uint64()
	mostlyGood := r.IntN(2) == 0
	c.Bubble(func() {
		m := &remote{c: c, r: rand.New(rand.NewPCG(seed, 7)), conns: map[uint64]bool{}, tids: map[uint32]int{}}
		var conn *vnet.PacketConn
		gotitnet.DialHook = func(network, address string, timeout time.Duration) (net.Conn, error) {
			if network != "udp" || address != "tracker.test:1337" {
				c.Report("tracker udp://tracker.test:1337 is dialled as %s %s", network, address)
			}
			conn = vnet.NewPacketConn(address, m.packet)
			conn.WriteErr = func() error {
				m.mu.Lock()
				defer m.mu.Unlock()
				if m.failWrite {
					return errors.New("network is unreachable")
				}
				return nil
			}
			return conn, nil
		}
		var tr gotit.Tracker
		var err error
		u := "udp://tracker.test:1337"
		if r.IntN(2) == 0 {
			u += "/announce"
		}
		c.Call("new tracker", func() { tr, err = tracker.New(u, zap.NewNop()) })
		if err != nil {
			c.Fail("tracker %s is refused: %v", u, err)
		}
		hist := ""
		var kept, keptWant [][]netip.AddrPort
		unasked := false // something unasked may still be queued, and is passed over
		for k := 0; k < n; k++ {
			m.mu.Lock()
			m.hash = randHash(r)
			m.data = gotit.AnnounceData{Downloaded: randNum(r), Uploaded: randNum(r), Left: randNum(r), Port: []int{0, 1, 6881, 32768, 65535, r.IntN(65536)}[r.IntN(6)]}
			m.connKind, m.annKind = right, right
			if !mostlyGood || r.IntN(3) == 0 {
				if r.IntN(2) == 0 {
					m.connKind = r.IntN(kinds)
				} else {
					m.annKind = r.IntN(kinds)
				}
			}
			m.failWrite = m.connKind == writeFails
			m.annPeers = randPeers(r, []int{0, 1, 2, 50, 200, 1500, r.IntN(30)}[r.IntN(7)])
			m.tail = 0
			if r.IntN(10) == 0 {
				m.tail = 1 + r.IntN(5)
			}
			m.accepted, m.connected, m.open = false, false, m.tail > 0
			m.sentConnects, m.sentAnnounces = 0, 0
			data := m.data
			hash := m.hash
			m.mu.Unlock()
			step := fmt.Sprintf("%s/%s", names[m.connKind], names[m.annKind])
			hist += step + "; "
			start := time.Now()
			var ips []netip.AddrPort
			c.Call("announce", func() { ips, err = tr.Announce(context.Background(), hash, &data) })
			took := time.Since(start)

			m.mu.Lock()
			tail := m.trace
			if len(tail) > 12 {
				tail = tail[len(tail)-12:]
			}
			what := fmt.Sprintf("exchange %d (%s)\n%v\n", k, hist, tail)
			bad, accepted, open := m.bad, m.accepted, m.open
			want := append([]netip.AddrPort(nil), m.annPeers...)
			sc, sa := m.sentConnects, m.sentAnnounces
			m.mu.Unlock()
			if bad != "" {
				c.Fail("%s%s", what, bad)
			}
			if took > limit {
				c.Fail("%sannounce took %s", what, took)
			}
			if m.connKind != writeFails {
				if sc == 0 {
					c.Fail("%sno connect was sent", what)
				}
				if sa > 0 && sc == 0 {
					c.Fail("%sannounce without connect", what)
				}
			}
			switch {
			case err == nil:
				if !accepted {
					c.Fail("%sno right reply was sent, the announce succeeded with %d peers", what, len(ips))
				}
				if len(ips) != len(want) {
					c.Fail("%s%d peers were sent, %d are returned: %v, sent %v", what, len(want), len(ips), ips, want)
				}
				for i := range ips {
					if ips[i] != want[i] {
						c.Fail("%speer %d is %v, sent was %v", what, i, ips[i], want[i])
					}
				}
				kept, keptWant = append(kept, ips), append(keptWant, want)
			case !open && (accepted || m.connKind == right && m.annKind == right):
				c.Fail("%sright replies were sent, the announce fails: %v", what, err)
			}
			if err != nil && len(ips) > 0 {
				c.Fail("%serror %v together with %d peers", what, err, len(ips))
			}
			if open {
				unasked = true
			} else if err == nil && unasked {
				c.Count("exchanges accepted with unasked packets before them", 1)
			}
			c.Eval(1)
			c.Count("exchanges", 1)
			if err == nil {
				c.Count("exchanges accepted", 1)
				c.Count("peers compared", len(ips))
			} else {
				c.Count("exchanges refused", 1)
			}
			c.Distinct(hist, len(want), err == nil)
			if r.IntN(2) == 0 {
				time.Sleep(time.Duration(r.IntN(5000)) * time.Millisecond)
			}
		}
		for i := range kept {
			if !slices.Equal(kept[i], keptWant[i]) {
				c.Fail("(%s) list %d of peers was %v when it was returned, after later announces it is %v", hist, i, keptWant[i], kept[i])
			}
		}
		c.Sample("%s", hist)
		_ = tr.Close()
		time.Sleep(5 * time.Second)
	})
}

// good announces again and again with nothing going wrong.
func good(c *mon.Case) {
	r := c.R
	seed := r.Uint64()
	c.Bubble(func() {
		m := &remote{c: c, r: rand.New(rand.NewPCG(seed, 9)), conns: map[uint64]bool{}, tids: map[uint32]int{}}
		gotitnet.DialHook = func(network, address string, timeout time.Duration) (net.Conn, error) {
			return vnet.NewPacketConn(address, m.packet), nil
		}
		tr, err := tracker.New("udp://tracker.test:1337", zap.NewNop())
		if err != nil {
			c.Fail("tracker is refused: %v", err)
		}
		for k := 0; k < 6; k++ {
			m.mu.Lock()
			m.hash = randHash(r)
			m.data = gotit.AnnounceData{Downloaded: randNum(r), Uploaded: randNum(r), Left: randNum(r), Port: r.IntN(65536)}
			m.annPeers = randPeers(r, r.IntN(80))
			m.connected = false
			hash, data, want := m.hash, m.data, m.annPeers
			m.mu.Unlock()
			var ips []netip.AddrPort
			c.Call("announce", func() { ips, err = tr.Announce(context.Background(), hash, &data) })
			m.mu.Lock()
			bad := m.bad
			m.mu.Unlock()
			if bad != "" {
				c.Fail("announce %d: %s", k, bad)
			}
			if err != nil || fmt.Sprint(ips) != fmt.Sprint(want) {
				c.Fail("announce %d: peers %v, error %v, sent were %v", k, ips, err, want)
			}
			c.Eval(1)
			c.Distinct(hash, len(want))
		}
		c.Count("exchanges", 6)
		c.Count("exchanges accepted", 6)
		_ = tr.Close()
	})
}

// loopback uses real datagrams; the machine may lose them, so a refusal is no
// verdict unless a real answer cannot have been lost.
func loopback(c *mon.Case) {
	r := c.R
	gotitnet.DialHook = nil
	srv, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		c.Harness("listen: %v", err)
	}
	defer srv.Close()
	want := randPeers(r, []int{0, 1, 50, 500, 3000, 9000}[r.IntN(6)])
	done := make(chan struct{})
	var answered bool
	go func() {
		defer close(done)
		buf := make([]byte, 1<<16)
		for {
			n, from, err := srv.ReadFrom(buf)
			if err != nil {
				return
			}
			b := buf[:n]
			if n == 16 {
				_, _ = srv.WriteTo(append(append(u32(0), b[12:16]...), 0, 0, 0, 0, 0, 0, 0, 9), from)
			} else if n == 98 {
				out := append(append(u32(1), b[12:16]...), 0, 0, 7, 8, 0, 0, 0, 1, 0, 0, 0, 1)
				_, err := srv.WriteTo(append(out, swarm.Compact(want)...), from)
				answered = err == nil
			}
		}
	}()
	tr, err := tracker.New("udp://"+srv.LocalAddr().String(), zap.NewNop())
	if err != nil {
		c.Fail("tracker is refused: %v", err)
	}
	var ips []netip.AddrPort
	c.Call("announce", func() { ips, err = tr.Announce(context.Background(), randHash(r), &gotit.AnnounceData{Port: 1}) })
	_ = tr.Close()
	_ = srv.Close()
	<-done
	if err != nil {
		c.Count("loopback exchanges lost", 1)
		return
	}
	if !answered || fmt.Sprint(ips) != fmt.Sprint(want) {
		c.Fail("%d peers were sent over a real socket, %d are returned", len(want), len(ips))
	}
	c.Eval(1)
	c.Count("exchanges over a real socket", 1)
	c.Distinct("loopback", len(want), ips)
}
