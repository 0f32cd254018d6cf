package c21

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/netip"
	"os"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/tracker"
	"github.com/anivanovic/gotit/pkg/util"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C21",
		mon.Family{Name: "reads", Quick: 18000, Thorough: 180000, Fn: reads},
		mon.Family{Name: "writes", Quick: 9000, Thorough: 90000, Fn: writes},
		mon.Family{Name: "paced", Quick: 3000, Thorough: 30000, Fn: paced},
		mon.Family{Name: "packets", Quick: 7500, Thorough: 75000, Fn: packets},
		mon.Family{Name: "all", Quick: 3000, Thorough: 30000, Fn: readAll},
		mon.Family{Name: "session", Quick: 2100, Thorough: 21000, Fn: session},
		mon.Family{Name: "tracker", Quick: 1800, Thorough: 18000, Fn: trackers},
		mon.Family{Name: "sockets", Quick: 144, Thorough: 1440, Fn: sockets},
	)
}

const eps = 2 * time.Millisecond

func dial(c *mon.Case, conn net.Conn, timeout time.Duration) *gotitnet.TimeoutConn {
	gotitnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return conn, nil }
	tc, err := gotitnet.NewTimeoutConn("tcp", "10.0.0.1:1", timeout)
	if err != nil {
		c.Fail("connect: %v", err)
	}
	return tc
}

var timeouts = []time.Duration{time.Millisecond, 50 * time.Millisecond, 500 * time.Millisecond, time.Second, 3 * time.Second, time.Minute}

type unit struct {
	kind  int // 0 message, 1 handshake, 2 16 byte packet read from a stream
	bytes []byte
	body  []byte
}

func randUnit(r *rand.Rand, first bool) unit {
	if first && r.IntN(3) == 0 || r.IntN(12) == 0 {
		b := make([]byte, 68)
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return unit{1, b, b}
	}
	if r.IntN(15) == 0 {
		b := make([]byte, 16)
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return unit{2, b, b}
	}
	n := []int{0, 1, 5, 13, 17, 100, 1000, 16393, 131081, r.IntN(300)}[r.IntN(10)]
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(r.IntN(256))
	}
	return unit{0, append(binary.BigEndian.AppendUint32(nil, uint32(n)), body...), body}
}

var unitNames = []string{"message", "handshake", "16 bytes"}

func readUnit(tc *gotitnet.TimeoutConn, kind int) ([]byte, error) {
	switch kind {
	case 1:
		return tc.ReadPeerHandshake()
	case 2:
		return tc.ReadUdpHandshake()
	}
	return tc.ReadPeerMessage()
}

// reads plays a byte stream with pauses to a client that reads unit by unit.
func reads(c *mon.Case) {
	r := c.R
	timeout := timeouts[r.IntN(len(timeouts))]
	var units []unit
	var stream []byte
	for i := 0; i < 1+r.IntN(6); i++ {
		u := randUnit(r, i == 0)
		units = append(units, u)
		stream = append(stream, u.bytes...)
	}
	// the stream is cut into portions with a pause before each
	type portion struct {
		after time.Duration
		n     int
	}
	style := r.IntN(7)
	var plan []portion
	if style == 6 {
		// a few bytes of a unit, a pause beyond the timeout, then all the rest
		k := r.IntN(len(units))
		n := 0
		for _, u := range units[:k] {
			n += len(u.bytes)
		}
		if n > 0 {
			plan = append(plan, portion{0, n})
		}
		first := min(1+r.IntN(6), len(units[k].bytes))
		plan = append(plan, portion{timeout / time.Duration(2+r.IntN(8)), first})
		if rest := len(stream) - n - first; rest > 0 {
			plan = append(plan, portion{timeout*3/2 + time.Duration(r.Int64N(int64(timeout))), rest})
		}
	}
	for left := len(stream); left > 0 && style != 6; {
		n := 1
		switch style {
		case 0:
			n = left
		case 1:
			n = 1 + r.IntN(3)
			if left > 400 {
				n = left / 100
			}
		case 2:
			n = 1 + r.IntN(left)
		default:
			n = min(left, 1+r.IntN(70))
			if left > 4000 {
				n = left / 10
			}
		}
		n = min(n, left)
		var d time.Duration
		switch r.IntN(5) {
		case 0:
			d = time.Duration(r.Int64N(int64(timeout)))
		case 1:
			d = timeout * 9 / 10
		case 2:
			if r.IntN(6) == 0 {
				d = timeout*3/2 + time.Millisecond
			}
		case 3:
			d = time.Duration(r.Int64N(int64(timeout)/10 + 1))
		}
		plan = append(plan, portion{d, n})
		left -= n
	}
	cut := -1 // the remote side closes after this many bytes
	if r.IntN(3) == 0 && style != 6 {
		cut = r.IntN(len(stream) + 1)
	}
	hold := r.IntN(2) == 0 // silence instead of a close at the end
	maxRead := []int{0, 1, 2, 7, 1000}[r.IntN(5)]
	if len(stream) > 3000 && maxRead > 0 {
		maxRead = 1000
	}
	c.Bubble(func() {
		client, server := vnet.Pipe("x")
		client.SetMaxRead(maxRead)
		tc := dial(c, client, timeout)
		start := time.Now()
		arrive := make([]time.Duration, len(stream)) // when each byte is there
		at, pos := time.Duration(0), 0
		closeAt := time.Duration(-1)
		for _, p := range plan {
			at += p.after
			for i := 0; i < p.n; i++ {
				arrive[pos+i] = at
			}
			if cut >= 0 && pos+p.n >= cut && closeAt < 0 {
				closeAt = at
			}
			pos += p.n
		}
		stop, done := make(chan struct{}), make(chan struct{})
		defer func() {
			close(stop)
			_ = client.Close()
			_ = server.Close()
			<-done
		}()
		go func() {
			defer close(done)
			sent := 0
			for _, p := range plan {
				if p.after > 0 {
					t := time.NewTimer(p.after)
					select {
					case <-t.C:
					case <-stop:
						t.Stop()
						return
					}
				}
				n := p.n
				if cut >= 0 && sent+n > cut {
					n = cut - sent
				}
				if n > 0 {
					_, _ = server.Write(stream[sent : sent+n])
				}
				sent += n
				if cut >= 0 && sent >= cut {
					if !hold {
						_ = server.Close()
					}
					return
				}
			}
			if !hold {
				_ = server.Close()
			}
		}()
		have := len(stream)
		if cut >= 0 {
			have = cut
		}
		off := 0
		hist := ""
		for k, u := range units {
			end := off + len(u.bytes)
			opStart := time.Since(start)
			deadline := opStart + timeout
			var got []byte
			var err error
			c.Call("read", func() { got, err = readUnit(tc, u.kind) })
			took := time.Since(start) - opStart
			what := fmt.Sprintf("timeout %s: %s %d (%d bytes from %d of a stream of %d, %d are sent): read took %s, %d bytes, error %v",
				timeout, unitNames[u.kind], k, len(u.bytes), off, len(stream), have, took, len(got), err)
			if took > timeout+eps {
				c.Fail("read past its timeout: %s", what)
			}
			c.Eval(1)
			c.Count("reads", 1)
			complete := end <= have
			var need time.Duration
			if complete && end > 0 {
				need = arrive[end-1]
			}
			switch {
			case complete && need+eps < deadline:
				if err != nil {
					c.Fail("all bytes are there %s before the timeout, the read fails: %s", deadline-need, what)
				}
			case !complete || need > deadline+eps:
				if err == nil {
					c.Fail("the bytes are not there, the read succeeds: %s", what)
				}
			}
			if err == nil {
				if !bytes.Equal(got, u.body) {
					c.Fail("read returns other bytes than the next %s: %s\ngot  %.80x\nwant %.80x", unitNames[u.kind], what, got, u.body)
				}
				c.Count("exact reads", 1)
			} else {
				if len(got) > 0 {
					c.Fail("failed read returns data: %s", what)
				}
				c.Count("failed reads", 1)
				hist += "e"
				// nothing read and only late: reading may go on
				early := off < have && arrive[off] < deadline+eps
				if errors.Is(err, os.ErrDeadlineExceeded) && early && complete {
					// a timeout in the middle of a message: whoever reads on gets the whole
					// message or an error, never something from its middle
					for try := 0; try < 2; try++ {
						time.Sleep(max(0, need-time.Since(start)) + eps)
						got, err = readUnit(tc, u.kind)
						if err == nil && !bytes.Equal(got, u.body) {
							c.Fail("a read that was cut in its middle looks like one without data, and the next one returns other bytes than the %s: %s\ngot  %.80x\nwant %.80x", unitNames[u.kind], what, got, u.body)
						}
						c.Count("reads after a cut one", 1)
						if err == nil {
							break
						}
					}
					break
				}
				if !errors.Is(err, os.ErrDeadlineExceeded) || early || off >= have || u.kind == 1 && k > 0 {
					break
				}
				// wait for the next unit from its first byte
				time.Sleep(max(0, arrive[off]-time.Since(start)) + eps)
				// once more, the stream has not moved
				opStart = time.Since(start)
				got, err = readUnit(tc, u.kind)
				if complete && need+eps < opStart+timeout {
					if err != nil || !bytes.Equal(got, u.body) {
						c.Fail("read after a timeout without data: %d bytes, error %v, want the next %s of %d bytes\n%s", len(got), err, unitNames[u.kind], len(u.body), what)
					}
				} else {
					break
				}
			}
			hist += fmt.Sprint(u.kind)
			off = end
		}
		_ = tc.Close()
		_ = server.Close()
		c.Distinct(timeout, fmt.Sprint(plan), cut, hold, maxRead, len(stream))
		c.Sample("timeout %s, %d units in %d portions, cut %d: %s", timeout, len(units), len(plan), cut, hist)
	})
}

// writes go to a peer that takes bytes slowly or not at all.
func writes(c *mon.Case) {
	r := c.R
	timeout := timeouts[r.IntN(len(timeouts))]
	capacity := []int{0, 1, 4, 5, 16, 17, 68, 1000, 1 << 20}[r.IntN(9)]
	every := timeout / time.Duration(1+r.IntN(20))
	take := r.IntN(40) // bytes taken every so often
	c.Bubble(func() {
		client, server := vnet.Pipe("x")
		client.SetWriteCap(capacity)
		tc := dial(c, client, timeout)
		var mu sync.Mutex
		var seen []byte
		client.OnWrite = func(b []byte) {
			mu.Lock()
			seen = append(seen, b...)
			mu.Unlock()
		}
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			buf := make([]byte, max(1, take))
			for {
				t := time.NewTimer(every)
				select {
				case <-stop:
					t.Stop()
					return
				case <-t.C:
				}
				if take > 0 {
					_ = server.SetReadDeadline(time.Now().Add(time.Nanosecond))
					_, _ = server.Read(buf)
				}
			}
		}()
		var want []byte
		for k := 0; k < 4; k++ {
			var data []byte
			var n int
			var err error
			opStart := time.Now()
			if r.IntN(2) == 0 {
				data = ref.RandBytes(r, []int{1, 68, 16, 98, 3000}[r.IntN(5)])
				if len(data) == 0 {
					data = []byte{1}
				}
				c.Call("write", func() { n, err = tc.Write(data) })
			} else {
				m := []*util.PeerMessage{util.KeepalivePeerMessage, util.CreateInterestedMessage(), util.CreatePieceMessage(r.Uint32(), r.Uint32(), r.Uint32())}[r.IntN(3)]
				var b bytes.Buffer
				_, _ = m.Send(&b)
				data = b.Bytes()
				c.Call("write message", func() { n, err = tc.WriteMsg(m) })
			}
			took := time.Since(opStart)
			what := fmt.Sprintf("timeout %s, peer takes %d bytes every %s and buffers %d: write %d of %d bytes took %s, n=%d, error %v", timeout, take, every, capacity, k, len(data), took, n, err)
			if took > timeout+eps {
				c.Fail("write past its timeout: %s", what)
			}
			mu.Lock()
			sent := bytes.Clone(seen)
			mu.Unlock()
			c.Eval(1)
			c.Count("writes", 1)
			if err == nil {
				want = append(want, data...)
				if !bytes.Equal(sent, want) {
					c.Fail("write succeeds with other bytes on the wire: %s\nsent %.100x\nwant %.100x", what, sent, want)
				}
				c.Count("exact writes", 1)
			} else {
				c.Count("failed writes", 1)
				if !bytes.HasPrefix(append(bytes.Clone(want), data...), sent) {
					c.Fail("failed write puts other bytes on the wire: %s", what)
				}
				break
			}
		}
		close(stop)
		<-done
		_ = tc.Close()
		_ = server.Close()
		c.Distinct("w", timeout, capacity, every, take)
	})
}

// paced writes to a peer that takes all of each one some time after it was
// started, but before its timeout: every write has its own.
func paced(c *mon.Case) {
	r := c.R
	timeout := timeouts[r.IntN(len(timeouts))]
	late := r.IntN(4) == 0
	c.Bubble(func() {
		client, server := vnet.Pipe("x")
		client.SetWriteCap(1 + r.IntN(3))
		tc := dial(c, client, timeout)
		hist := ""
		for k := 0; k < 2+r.IntN(6); k++ {
			delay := time.Duration(r.Int64N(int64(timeout * 9 / 10)))
			over := late && r.IntN(4) == 0
			if over {
				delay += timeout
			}
			idle := time.Duration(r.Int64N(int64(timeout))) / []time.Duration{1, 20, 1 << 40}[r.IntN(3)]
			data := make([]byte, []int{4, 5, 17, 68, 98, 4 + r.IntN(2000)}[r.IntN(6)])
			for i := range data {
				data[i] = byte(r.IntN(256))
			}
			var m *util.PeerMessage
			if r.IntN(2) == 0 {
				m = []*util.PeerMessage{util.KeepalivePeerMessage, util.CreateInterestedMessage(), util.CreatePieceMessage(r.Uint32(), r.Uint32(), r.Uint32())}[r.IntN(3)]
				var b bytes.Buffer
				_, _ = m.Send(&b)
				data = b.Bytes()
			}
			hist += fmt.Sprintf("%d bytes taken after %s, pause %s; ", len(data), delay, idle)
			got := make([]byte, len(data))
			taken := make(chan error, 1)
			go func() {
				time.Sleep(delay)
				_, err := io.ReadFull(server, got)
				taken <- err
			}()
			var n int
			var err error
			start := time.Now()
			if m != nil {
				c.Call("write message", func() { n, err = tc.WriteMsg(m) })
			} else {
				c.Call("write", func() { n, err = tc.Write(data) })
			}
			took := time.Since(start)
			if took > timeout+eps {
				c.Fail("write past its timeout %s: took %s, %v (%s)", timeout, took, err, hist)
			}
			c.Eval(1)
			if over {
				if err == nil {
					c.Fail("write %d succeeds with nothing taken within its timeout %s (%s)", k, timeout, hist)
				}
				c.Count("paced writes past the timeout", 1)
				_ = tc.Close()
				_ = server.Close()
				<-taken
				return
			}
			if err != nil || n != len(data) {
				c.Fail("everything is taken %s before the timeout %s of write %d, it ends after %s with n=%d, error %v (%s)", timeout-delay, timeout, k, took, n, err, hist)
			}
			if err := <-taken; err != nil || !bytes.Equal(got, data) {
				c.Fail("write %d puts other bytes on the wire: %.100x, want %.100x (%v, %s)", k, got, data, err, hist)
			}
			c.Count("paced writes", 1)
			time.Sleep(idle)
		}
		c.Distinct("p", timeout, hist)
		_ = tc.Close()
		_ = server.Close()
	})
}

// packets are read one by one.
func packets(c *mon.Case) {
	r := c.R
	timeout := timeouts[r.IntN(len(timeouts))]
	var pk [][]byte
	for i := 0; i < r.IntN(6); i++ {
		b := make([]byte, []int{0, 1, 8, 16, 20, 98, 1500, 9000, 60000, r.IntN(400)}[r.IntN(10)])
		for j := range b {
			b[j] = byte(r.IntN(256))
		}
		pk = append(pk, b)
	}
	gap := []time.Duration{0, timeout / 3, timeout * 2 / 3, timeout * 2}[r.IntN(4)]
	c.Bubble(func() {
		conn := vnet.NewPacketConn("t", func(*vnet.PacketConn, []byte) {})
		tc := dial(c, conn, timeout)
		start := time.Now()
		for i, b := range pk {
			conn.DeliverAfter(time.Duration(i)*(gap+1)+1, b)
		}
		next := 0
		for k := 0; k < len(pk)+2 && next <= len(pk); k++ {
			opStart := time.Since(start)
			var got []byte
			var err error
			c.Call("read packet", func() { got, err = tc.ReadPacket() })
			took := time.Since(start) - opStart
			what := fmt.Sprintf("timeout %s, %d packets every %s: read %d took %s, %d bytes, error %v", timeout, len(pk), gap, k, took, len(got), err)
			if took > timeout+eps {
				c.Fail("read past its timeout: %s", what)
			}
			c.Eval(1)
			c.Count("packet reads", 1)
			if next >= len(pk) {
				if err == nil {
					c.Fail("packet read without a packet: %s", what)
				}
				break
			}
			at := time.Duration(next)*(gap+1) + 1
			if err == nil {
				if !bytes.Equal(got, pk[next]) {
					c.Fail("packet %d has %d bytes, %d other bytes are read: %s", next, len(pk[next]), len(got), what)
				}
				next++
				c.Count("exact packets", 1)
			} else if at+eps < opStart+timeout {
				c.Fail("packet %d is there, the read fails: %s", next, what)
			}
		}
		_ = tc.Close()
		time.Sleep(time.Duration(len(pk)+1) * (gap + 1))
		c.Distinct("p", timeout, gap, fmt.Sprint(len(pk)), r.Uint64())
	})
}

// readAll ends at the end of the stream or at the timeout.
func readAll(c *mon.Case) {
	r := c.R
	timeout := timeouts[r.IntN(len(timeouts))]
	data := ref.RandBytes(r, 3000)
	n := 1 + r.IntN(8)
	gap := []time.Duration{0, timeout / 20, timeout / 4, timeout}[r.IntN(4)]
	closes := r.IntN(2) == 0
	c.Bubble(func() {
		client, server := vnet.Pipe("x")
		tc := dial(c, client, timeout)
		total := time.Duration(0)
		done := make(chan struct{})
		defer func() {
			_ = client.Close()
			_ = server.Close()
			<-done
		}()
		go func() {
			defer close(done)
			for i := 0; i < n; i++ {
				time.Sleep(gap)
				_, _ = server.Write(data[len(data)*i/n : len(data)*(i+1)/n])
			}
			if closes {
				_ = server.Close()
			}
		}()
		total = time.Duration(n) * gap
		start := time.Now()
		var got []byte
		var err error
		c.Call("read all", func() { got, err = tc.ReadAll() })
		took := time.Since(start)
		what := fmt.Sprintf("timeout %s, %d bytes in %d portions every %s, closed %v: read took %s, %d bytes, error %v", timeout, len(data), n, gap, closes, took, len(got), err)
		if took > timeout+eps {
			c.Fail("read past its timeout: %s", what)
		}
		if closes && total+eps < timeout {
			if err != nil || !bytes.Equal(got, data) {
				c.Fail("stream is complete, read is not: %s", what)
			}
		}
		if (!closes || total > timeout+eps) && err == nil {
			c.Fail("stream has not ended, read succeeds: %s", what)
		}
		_ = tc.Close()
		time.Sleep(total + time.Second)
		_ = server.Close()
		c.Eval(1)
		c.Count("streams read to the end", 1)
		c.Distinct("all", timeout, n, gap, closes, len(data))
	})
}

// session watches whole peer sessions with a remote side that trickles.
func session(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{MaxPieces: 4, MaxPieceLen: 300})
	kind := r.IntN(5)
	step := time.Duration(50+r.IntN(900)) * time.Millisecond
	a := swarm.Addr(1)
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var mu sync.Mutex
		var began, ended []time.Time // of the trickling, of the session
		w.Net.OnSession = func(s *vnet.Session) {
			n := s.Number
			_ = n
			mu.Lock()
			i := len(began)
			began = append(began, time.Time{})
			ended = append(ended, time.Time{})
			mu.Unlock()
			old := s.Client.OnClose
			s.Client.OnClose = func() {
				mu.Lock()
				ended[i] = time.Now()
				mu.Unlock()
				if old != nil {
					old()
				}
			}
			if kind == 3 {
				s.Client.SetWriteCap(10)
			}
			if kind == 4 {
				s.Client.SetWriteCap(68)
			}
		}
		mark := func() {
			mu.Lock()
			for i := range began {
				if began[i].IsZero() {
					began[i] = time.Now()
				}
			}
			mu.Unlock()
		}
		w.Net.Add(a.String(), &vnet.Host{Serve: func(s *vnet.Session) {
			trickle := func(b []byte) bool {
				mark()
				for _, x := range b {
					if _, err := s.Conn.Write([]byte{x}); err != nil {
						return false
					}
					t := time.NewTimer(step)
					select {
					case <-t.C:
					case <-s.Stopped():
						t.Stop()
						return false
					}
				}
				return true
			}
			hs := append([]byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"), spec.Hash[:]...)
			hs = append(hs, "-XX0000-abcdefghijkl"...)
			if kind == 0 {
				trickle(hs)
				<-s.Stopped()
				return
			}
			if kind == 3 {
				mark()
				<-s.Stopped()
				return
			}
			if _, err := io.ReadFull(s.Conn, make([]byte, 68)); err != nil {
				return
			}
			if kind == 4 {
				// the peer stops reading: the next write of the client blocks
				_, _ = s.Conn.Write(hs)
				s.Client.SetWriteCap(0)
				mark()
				<-s.Stopped()
				return
			}
			_, _ = s.Conn.Write(hs)
			if kind == 2 {
				_, _ = s.Conn.Write(ref.BitfieldFrame(swarm.All(spec.NumPieces())).Bytes())
				_, _ = s.Conn.Write(ref.Frame{Type: ref.Unchoke}.Bytes())
			}
			// a message that never ends
			msg := append([]byte{0, 0, 1, 0, 7}, make([]byte, 255)...)
			trickle(msg)
			<-s.Stopped()
		}})
		w.AddTracker(&swarm.Tracker{URL: "http://tracker.test/announce", Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: []netip.AddrPort{a}, Interval: swarm.Int(1000)}
		}})
		w.Start(3, 6881)
		w.Wait(100 * time.Second)
		mu.Lock()
		bad := ""
		for i := range began {
			if began[i].IsZero() {
				continue
			}
			// the read or write under way ends within a second; a client that pauses
			// up to half a minute between two of them has not started it yet
			limit := 2500 * time.Millisecond
			if kind == 1 {
				limit = 35 * time.Second
			}
			if ended[i].IsZero() && time.Since(began[i]) > limit || !ended[i].IsZero() && ended[i].Sub(began[i]) > limit {
				bad = fmt.Sprintf("peer %s: session %d goes on for more than %s after the remote side began to stall (ended: %v)", []string{"trickles its handshake", "trickles a message", "trickles an answer", "takes 10 bytes", "stops reading"}[kind], i, limit, !ended[i].IsZero())
				break
			}
		}
		k := len(began)
		mu.Unlock()
		w.Finish()
		if bad != "" {
			c.Fail("%s (a byte every %s)", bad, step)
		}
		c.Eval(1)
		c.Count("stalled sessions", k)
		c.Distinct("session", kind, step)
	})
}

// trackers watches UDP exchanges that get no or unusable answers.
func trackers(c *mon.Case) {
	r := c.R
	mode := r.IntN(4)
	c.Bubble(func() {
		var waits []time.Time
		conn := vnet.NewPacketConn("t", func(p *vnet.PacketConn, b []byte) {
			waits = append(waits, time.Now())
			switch {
			case mode == 0:
			case len(b) == 16:
				out := append([]byte{0, 0, 0, 0}, b[12:16]...)
				out = append(out, 1, 2, 3, 4, 5, 6, 7, 8)
				p.DeliverAfter(time.Duration(r.IntN(450))*time.Millisecond, out)
			case mode == 2:
				// datagrams keep coming, none of them is an answer
				for i := 1; i < 30; i++ {
					p.DeliverAfter(time.Duration(i)*100*time.Millisecond, []byte{0, 0, 0, 1, 0, 0})
				}
			}
		})
		gotitnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return conn, nil }
		tr, err := tracker.New("udp://t.test:80", zap.NewNop())
		if err != nil {
			c.Fail("tracker is refused: %v", err)
		}
		start := time.Now()
		var ips []netip.AddrPort
		c.Call("announce", func() {
			ips, err = tr.Announce(context.Background(), "aaaaaaaaaaaaaaaaaaaa", &gotit.AnnounceData{Left: r.Uint64()})
		})
		took := time.Since(start)
		if err == nil {
			c.Fail("silent tracker: announce succeeds with %v", ips)
		}
		// one wait for each packet sent
		if limit := time.Duration(len(waits)) * (500*time.Millisecond + eps); took > limit {
			c.Fail("announce to a tracker that does not answer took %s for %d packets (mode %d)", took, len(waits), mode)
		}
		_ = tr.Close()
		time.Sleep(5 * time.Second)
		c.Eval(1)
		c.Count("tracker waits", len(waits))
		c.Distinct("tracker", mode, took)
	})
}

// sockets uses real connections, with generous limits for the machine.
func sockets(c *mon.Case) {
	r := c.R
	gotitnet.DialHook = nil
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Harness("listen: %v", err)
	}
	defer ln.Close()
	kind := r.IntN(3)
	body := ref.RandBytes(r, 5000)
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		s, err := ln.Accept()
		if err != nil {
			return
		}
		defer s.Close()
		msg := append(binary.BigEndian.AppendUint32(nil, uint32(len(body))), body...)
		switch kind {
		case 0: // whole messages in odd portions
			for i := 0; i < 3; i++ {
				for p := 0; p < len(msg); {
					n := min(1+len(msg)/3, len(msg)-p)
					_, _ = s.Write(msg[p : p+n])
					p += n
				}
			}
			<-stop
		case 1: // trickle for ever
			_, _ = s.Write([]byte{0, 0, 8, 0})
			for {
				if _, err := s.Write([]byte{7}); err != nil {
					return
				}
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
			}
		case 2: // cut
			_, _ = s.Write(msg[:len(msg)-1])
		}
	}()
	timeout := 5 * time.Second
	if kind == 1 {
		timeout = 200 * time.Millisecond
	}
	tc, err := gotitnet.NewTimeoutConn("tcp", ln.Addr().String(), timeout)
	if err != nil {
		c.Harness("dial: %v", err)
	}
	n := 1
	if kind == 0 {
		n = 3
	}
	for i := 0; i < n; i++ {
		t0 := time.Now()
		got, err := tc.ReadPeerMessage()
		took := time.Since(t0)
		if took > timeout+10*time.Second {
			c.Fail("read with a timeout of %s took %s on a real connection (kind %d)", timeout, took, kind)
		}
		switch {
		case kind == 0 && err == nil && !bytes.Equal(got, body):
			c.Fail("message %d of %d bytes is read as %d other bytes", i, len(body), len(got))
		case kind == 0 && err != nil && took < time.Second:
			c.Fail("message %d of %d bytes: %v after %s", i, len(body), err, took)
		case kind != 0 && err == nil:
			c.Fail("incomplete message is read as %d bytes (kind %d)", len(got), kind)
		}
	}
	close(stop)
	_ = tc.Close()
	<-done
	c.Eval(1)
	c.Count("real connections", 1)
	c.Distinct("sockets", kind, body)
}
