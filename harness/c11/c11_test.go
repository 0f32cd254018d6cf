package c11

import (
	"bytes"
	"fmt"
	"maps"
	"math/rand/v2"
	"net"
	"net/netip"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/gotitnet"
	"github.com/anivanovic/gotit/pkg/util"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C11",
		mon.Family{Name: "encode", Quick: 4000, Thorough: 40000, Fn: encode},
		mon.Family{Name: "decode", Quick: 7500, Thorough: 75000, Fn: decode},
		mon.Family{Name: "malformed", Quick: 7500, Thorough: 75000, Fn: malformed},
		mon.Family{Name: "types", Quick: 256, Thorough: 256, Fn: types},
		mon.Family{Name: "stream", Quick: 6000, Thorough: 60000, Fn: stream},
		mon.Family{Name: "absurd", Quick: 2500, Thorough: 25000, Fn: absurd},
		mon.Family{Name: "pieceset", Quick: 4500, Thorough: 45000, Fn: pieceSet},
		mon.Family{Name: "session", Quick: 2500, Thorough: 25000, Fn: session},
		mon.Family{Name: "hugefields", Quick: 300, Thorough: 3000, Fn: hugeFields},
		mon.Family{Name: "concurrent", Quick: 300, Thorough: 3000, Fn: concurrent},
		mon.Family{Name: "bigframes", Quick: 300, Thorough: 3000, Fn: bigFrames},
	)
}

func num(r *rand.Rand) uint32 {
	return []uint32{0, 1, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1, 0x01020304, r.Uint32(), r.Uint32() >> 16, 128 << 10}[r.IntN(12)]
}

func encode(c *mon.Case) {
	r := c.R
	try := func(m *util.PeerMessage, want ref.Frame, what string) {
		var b bytes.Buffer
		var n int
		var err error
		c.Call("send "+what, func() { n, err = m.Send(&b) })
		if err != nil || n != b.Len() || !bytes.Equal(b.Bytes(), want.Bytes()) {
			c.Fail("%s is sent as %x (n=%d, err=%v), the frame is %x", what, b.Bytes(), n, err, want.Bytes())
		}
		c.Eval(1)
		c.Distinct(want.Bytes())
	}
	for i := 0; i < 40; i++ {
		idx, off, l := num(r), num(r), num(r)
		m := util.CreatePieceMessage(idx, off, l)
		try(m, ref.RequestFrame(idx, off, l), fmt.Sprintf("request %d %d %d", idx, off, l))
		if m.Type != util.RequestMessageType || m.Index() != idx || m.Offset() != off || m.BlockLength() != l {
			c.Fail("request for %d %d %d says type %d, %d %d %d", idx, off, l, m.Type, m.Index(), m.Offset(), m.BlockLength())
		}
	}
	try(util.CreateInterestedMessage(), ref.Frame{Type: ref.Interested}, "interested")
	try(util.CreateChokeMessage(), ref.Frame{Type: ref.Choke}, "choke")
	try(util.CreateUnchokeMessage(), ref.Frame{Type: ref.Unchoke}, "unchoke")
	try(util.KeepalivePeerMessage, ref.Frame{Type: ref.Keepalive}, "keepalive")
	// whatever was decoded is written back as it came
	f := randFrame(r)
	try(util.NewPeerMessage(bytes.Clone(f.Body())), f, fmt.Sprintf("decoded frame %x", head(f.Bytes())))
	c.Sample("request %x", ref.RequestFrame(num(r), num(r), num(r)).Bytes())
}

func head(b []byte) []byte { return b[:min(len(b), 40)] }

// randFrame is well-formed and of a known type.
func randFrame(r *rand.Rand) ref.Frame {
	switch r.IntN(10) {
	case 0:
		return ref.Frame{Type: ref.Keepalive}
	case 1, 2:
		return ref.Frame{Type: r.IntN(4)}
	case 3:
		return ref.HaveFrame(num(r))
	case 4:
		return ref.BitfieldFrame(swarm.RandHave(r, 1+r.IntN(300)))
	case 5:
		return ref.RequestFrame(num(r), num(r), num(r))
	case 6:
		return ref.Frame{Type: ref.Cancel, Payload: ref.U32(num(r), num(r), num(r))}
	}
	return ref.PieceFrame(num(r), num(r), ref.RandBytes(r, []int{0, 1, 20, 3000, 20000}[r.IntN(5)]))
}

func same(c *mon.Case, m *util.PeerMessage, f ref.Frame) {
	fail := func(what string, got, want any) {
		c.Fail("frame %x: %s is decoded as %v, sent was %v", head(f.Bytes()), what, got, want)
	}
	typ := util.MessageType(f.Type)
	if f.Type == ref.Keepalive {
		typ = util.KeepaliveMessageType
	}
	if m == nil || m.Type != typ {
		fail("type", m, typ)
	}
	switch f.Type {
	case ref.Have:
		if m.Index() != f.At(0) {
			fail("index", m.Index(), f.At(0))
		}
	case ref.Request, ref.Cancel:
		if m.Index() != f.At(0) || m.Offset() != f.At(1) || m.BlockLength() != f.At(2) {
			fail("request", []uint32{m.Index(), m.Offset(), m.BlockLength()}, []uint32{f.At(0), f.At(1), f.At(2)})
		}
	case ref.Piece:
		if m.Index() != f.At(0) || m.Offset() != f.At(1) {
			fail("place", []uint32{m.Index(), m.Offset()}, []uint32{f.At(0), f.At(1)})
		}
		if !bytes.Equal(m.Data(), f.Payload[8:]) {
			fail("data", head(m.Data()), head(f.Payload[8:]))
		}
	default:
		if m.Data() != nil {
			fail("data", head(m.Data()), "none")
		}
	}
}

func decode(c *mon.Case) {
	for i := 0; i < 20; i++ {
		f := randFrame(c.R)
		var m *util.PeerMessage
		c.Call(fmt.Sprintf("decode %x", head(f.Bytes())), func() { m = util.NewPeerMessage(bytes.Clone(f.Body())) })
		same(c, m, f)
		c.Eval(1)
		c.Distinct(f.Type, len(f.Payload), head(f.Payload))
	}
}

// use asks a message for everything.
func use(m *util.PeerMessage) {
	if m == nil {
		return
	}
	_, _, _, _, _ = m.Index(), m.Offset(), m.BlockLength(), m.Data(), m.Bitfield()
	_, _ = m.Send(&bytes.Buffer{})
}

// malformed bodies are decoded without a crash, and never to data that is not
// in them.
func malformed(c *mon.Case) {
	r := c.R
	for i := 0; i < 30; i++ {
		var body []byte
		switch r.IntN(4) {
		case 0:
			body = ref.RandBytes(r, 30)
		case 1: // cut short
			f := randFrame(r)
			body = f.Body()
			body = body[:r.IntN(len(body)+1)]
		case 2: // too long
			f := randFrame(r)
			body = append(f.Body(), ref.RandBytes(r, 9)...)
		default:
			body = append([]byte{byte(r.IntN(12))}, ref.RandBytes(r, 14)...)
		}
		var m *util.PeerMessage
		c.Call(fmt.Sprintf("decode %x", head(body)), func() {
			m = util.NewPeerMessage(bytes.Clone(body))
			use(m)
		})
		if m != nil && len(m.Data()) > 0 && !bytes.HasSuffix(body, m.Data()) {
			c.Fail("body %x is decoded to data %x", head(body), head(m.Data()))
		}
		c.Eval(1)
		c.Distinct(body)
	}
}

// types tries every type byte with every short length.
func types(c *mon.Case) {
	var typ int
	fmt.Sscanf(c.ID, "types/%d", &typ)
	for n := 0; n < 24; n++ {
		body := append([]byte{byte(typ)}, make([]byte, n)...)
		for i := range body[1:] {
			body[1+i] = byte(0x10 + i)
		}
		var m *util.PeerMessage
		c.Call(fmt.Sprintf("decode %x", body), func() { m = util.NewPeerMessage(bytes.Clone(body)); use(m) })
		f := ref.Frame{Type: typ, Payload: body[1:]}
		need := map[int]int{ref.Have: 4, ref.Request: 12, ref.Piece: 8, ref.Cancel: 12}[typ]
		switch {
		case typ > ref.Cancel:
			if m != nil && m.Type <= util.CancelMessageType {
				c.Fail("frame of unknown type %d is decoded as type %d", typ, m.Type)
			}
		case n < need:
			if m != nil && m.Type == util.MessageType(typ) && typ != ref.Piece && (m.Index() != 0 || m.Offset() != 0) {
				c.Fail("frame %x, too short for its type, is decoded to %d %d", body, m.Index(), m.Offset())
			}
		case typ == ref.Have && n == 4, typ == ref.Request && n == 12, typ == ref.Cancel && n == 12, typ == ref.Piece, typ == ref.Bitfield, typ < ref.Have && n == 0:
			same(c, m, f)
		}
		c.Eval(1)
		c.Distinct(typ, n)
	}
}

func dial(c *mon.Case, timeout time.Duration) (*gotitnet.TimeoutConn, *vnet.Conn, *vnet.Conn) {
	client, server := vnet.Pipe("peer")
	server.SetWriteCap(-1)
	gotitnet.DialHook = func(string, string, time.Duration) (net.Conn, error) { return client, nil }
	conn, err := gotitnet.NewTimeoutConn("tcp", "10.0.0.1:1", timeout)
	if err != nil {
		c.Harness("dial: %v", err)
	}
	return conn, server, client
}

// stream sends frames in arbitrary fragments through a connection.
func stream(c *mon.Case) {
	r := c.R
	var frames []ref.Frame
	var raw []byte
	withHS := r.IntN(2) == 0
	hs := ref.Handshake([8]byte{}, ref.RandBytes(r, 0), nil)
	hs = append(hs, make([]byte, 68-len(hs))...)
	for i := range hs[28:] {
		hs[28+i] = byte(r.UintN(256))
	}
	if withHS {
		raw = append(raw, hs...)
	}
	for n := 1 + r.IntN(25); n > 0; n-- {
		f := randFrame(r)
		frames = append(frames, f)
		raw = append(raw, f.Bytes()...)
	}
	c.Bubble(func() {
		conn, server, client := dial(c, time.Minute)
		if r.IntN(2) == 0 {
			client.SetMaxRead(1 + r.IntN(50))
		}
		go func() {
			b := raw
			for len(b) > 0 {
				n := min(len(b), 1+r.IntN([]int{1, 7, 300, 70000}[r.IntN(4)]))
				_, _ = server.Write(b[:n])
				b = b[n:]
				if r.IntN(3) == 0 {
					time.Sleep(time.Duration(r.IntN(40)) * time.Millisecond)
				}
			}
		}()
		if withHS {
			got, err := conn.ReadPeerHandshake()
			c.Check(err == nil && bytes.Equal(got, hs), "handshake %x is read as %x, %v", hs, got, err)
		}
		var msgs []*util.PeerMessage
		for i, f := range frames {
			got, err := conn.ReadPeerMessage()
			if err != nil || !bytes.Equal(got, f.Body()) {
				c.Fail("frame %d of %d, %x, is read as %x, %v", i, len(frames), head(f.Bytes()), head(got), err)
			}
			msgs = append(msgs, util.NewPeerMessage(got))
			same(c, msgs[i], f)
			c.Eval(1)
		}
		// reading on leaves earlier messages as they were: blocks are kept
		// until their piece is complete
		for i, f := range frames {
			same(c, msgs[i], f)
		}
		_ = conn.Close()
		_ = server.Close()
	})
	c.Count("frames read in fragments", len(frames))
	c.Distinct(len(raw), c.Seed)
}

func allocated(fn func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// absurd sizes are refused without allocating them.
func absurd(c *mon.Case) {
	r := c.R
	size := []uint32{1<<32 - 1, 1 << 31, 1<<31 - 1, 1 << 30, 1 << 26, 1 << 25, 1<<25 + uint32(r.IntN(1000)), r.Uint32() | 1<<27}[r.IntN(8)]
	raw := append(ref.U32(size), byte(r.IntN(10)))
	raw = append(raw, ref.RandBytes(r, 3000)...)
	pieces := r.IntN(3)
	c.Bubble(func() {
		conn, server, _ := dial(c, time.Second)
		for i := 0; i < pieces; i++ {
			f := randFrame(r)
			_, _ = server.Write(f.Bytes())
			if got, err := conn.ReadPeerMessage(); err != nil || !bytes.Equal(got, f.Body()) {
				c.Fail("frame %x before the absurd one is read as %x, %v", head(f.Bytes()), head(got), err)
			}
		}
		_, _ = server.Write(raw)
		if r.IntN(2) == 0 {
			_ = server.Close()
		}
		var got []byte
		var err error
		used := allocated(func() { got, err = conn.ReadPeerMessage() })
		if err == nil && len(got) != 0 {
			c.Fail("frame that declares %d bytes and has %d is read as %d bytes", size, len(raw)-4, len(got))
		}
		c.Check(used < 16<<20, "reading a frame that declares %d bytes, %d of them there, allocates %d bytes", size, len(raw)-4, used)
		c.Eval(1)
		c.Count("absurd frames", 1)
		c.Distinct(size, len(raw))
		_ = conn.Close()
		_ = server.Close()
	})
}

var url = []string{"http://tracker.test/announce"}

// pieceSet compares what a peer announces with what is asked from it.
func pieceSet(c *mon.Case) {
	r := c.R
	n := 1 + r.IntN([]int{9, 20, 70, 140}[r.IntN(4)])
	many := r.IntN(150) == 0
	if many {
		n = 65000 + r.IntN(4000)
	}
	spec := swarm.NewSpec(r, "t", true, []swarm.File{{Length: n*3 - r.IntN(3)}}, 3, url, nil)
	n = spec.NumPieces()
	have := swarm.RandHave(r, n)
	switch r.IntN(6) {
	case 0: // one piece
		have = make([]bool, n)
		have[r.IntN(n)] = true
	case 1: // all but one
		have = swarm.All(n)
		have[r.IntN(n)] = false
	case 2:
		have = make([]bool, n)
		have[0], have[n-1] = r.IntN(2) == 0, true
	}
	if many {
		have = make([]bool, n)
		for k := 1 + r.IntN(30); k > 0; k-- {
			have[[]int{r.IntN(n), n - 1 - r.IntN(3000), min(n-1, 65536+r.IntN(200))}[r.IntN(3)]] = true
		}
	}
	s := &swarm.Script{Addr: swarm.Addr(1).String(), Have: have, Honest: true, Seed: r.Uint64(), ByHave: r.IntN(3) == 0, NoField: r.IntN(6) == 0}
	s.Twice = r.IntN(4) == 0
	if r.IntN(2) == 0 {
		s.MaxRead = 1 + r.IntN(30)
	}
	if r.IntN(3) == 0 {
		s.Later = map[int]time.Duration{}
		for i, h := range have {
			if r.IntN(2) == 0 && (h || !many) {
				s.Later[i] = time.Duration(r.IntN(8000)) * time.Millisecond
			}
		}
	}
	s.UnchokeFirst = r.IntN(3) == 0
	if r.IntN(3) == 0 {
		s.DelaySpread = 20 * time.Millisecond
	}
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var mu sync.Mutex
		asked := map[int]bool{}
		w.Net.OnSession = func(s *vnet.Session) {
			var sp ref.Splitter
			s.Client.OnWrite = func(b []byte) {
				mu.Lock()
				defer mu.Unlock()
				_, fr, _ := sp.Feed(b, 1<<20)
				for _, f := range fr {
					if f.Type == ref.Request {
						asked[int(f.At(0))] = true
					}
				}
			}
		}
		w.AddPeer(s)
		w.AddTracker(&swarm.Tracker{URL: url[0], Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Interval: swarm.Int(600), Peers: []netip.AddrPort{swarm.Addr(1)}}
		}})
		w.Start(5, 6881)
		w.Wait(30*time.Second + time.Duration(min(n, 200))*100*time.Millisecond)
		w.Finish()
		mu.Lock()
		asked = maps.Clone(asked)
		mu.Unlock()
		var missing, made []int
		for i, h := range have {
			if h && !asked[i] {
				missing = append(missing, i)
			}
		}
		for i := range asked {
			if i >= n || !have[i] {
				made = append(made, i)
			}
		}
		sort.Ints(made)
		if len(missing)+len(made) > 0 {
			c.Fail("peer announced %.1000v of %d pieces (%s); never asked: %v, asked without being announced: %v", have, n, s.Describe(), missing, made)
		}
		c.Eval(1)
		c.Count("pieces asked for", len(asked))
		c.Distinct(fmt.Sprint(have), s.ByHave, s.NoField, s.MaxRead)
		c.Sample("%d of %d pieces announced, byHave=%v, fragments of %d: asked for exactly those", len(asked), n, s.ByHave, s.MaxRead)
	})
}

// session feeds a real session with well-formed, malformed and absurd frames.
func session(c *mon.Case) {
	r := c.R
	spec := swarm.Gen(r, swarm.Shape{MaxPieces: 8, MaxPieceLen: 200, Trackers: url})
	n := spec.NumPieces()
	dir, clean := c.Dir()
	defer clean()
	seed := r.Uint64()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		sent := 0
		var kinds [6]int
		w.Net.Add(swarm.Addr(1).String(), &vnet.Host{Serve: func(s *vnet.Session) {
			r := rand.New(rand.NewPCG(seed, uint64(s.Number)))
			s.Conn.SetWriteCap(-1)
			go func() { // swallow
				buf := make([]byte, 4096)
				for {
					if _, err := s.Conn.Read(buf); err != nil {
						return
					}
				}
			}()
			_, _ = s.Conn.Write(ref.Handshake([8]byte{}, spec.Hash[:], []byte("-VP0001-123456789012")))
			_, _ = s.Conn.Write(ref.BitfieldFrame(swarm.RandHave(r, n)).Bytes())
			_, _ = s.Conn.Write(ref.Frame{Type: ref.Unchoke}.Bytes())
			for i := 0; i < 60; i++ {
				var b []byte
				k := r.IntN(6)
				switch k {
				case 0, 1:
					b = randFrame(r).Bytes()
				case 2: // too short for its type
					b = ref.Frame{Type: []int{ref.Have, ref.Request, ref.Piece, ref.Cancel}[r.IntN(4)], Payload: make([]byte, r.IntN(4))}.Bytes()
				case 3:
					b = ref.Frame{Type: 9 + r.IntN(247), Payload: ref.RandBytes(r, 60)}.Bytes()
				case 4:
					b = ref.Frame{Type: r.IntN(9), Payload: ref.RandBytes(r, 60)}.Bytes()
				case 5:
					if r.IntN(10) > 0 {
						continue
					}
					b = append(ref.U32(1<<25+r.Uint32()>>3), ref.RandBytes(r, 100)...)
				}
				for len(b) > 0 {
					m := min(len(b), 1+r.IntN(40))
					if _, err := s.Conn.Write(b[:m]); err != nil {
						return
					}
					b = b[m:]
				}
				sent++
				kinds[k]++
				time.Sleep(time.Duration(r.IntN(200)) * time.Millisecond)
			}
		}})
		w.AddTracker(&swarm.Tracker{URL: url[0], Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Interval: swarm.Int(4), Peers: []netip.AddrPort{swarm.Addr(1)}}
		}})
		used := allocated(func() {
			w.Start(5, 6881)
			w.Wait(20 * time.Second)
			w.Finish()
		})
		c.Check(used < 256<<20, "sessions with malformed frames allocate %d bytes", used)
		c.Eval(1)
		c.Count("frames sent to the client", sent)
		c.Distinct(seed)
	})
}

// bigFrames checks that the biggest frames the protocol needs are read.
func bigFrames(c *mon.Case) {
	r := c.R
	var f ref.Frame
	if r.IntN(2) == 0 {
		f = ref.PieceFrame(num(r), num(r), bytes.Repeat([]byte{byte(r.UintN(256))}, 128<<10-r.IntN(3)))
	} else {
		f = ref.Frame{Type: ref.Bitfield, Payload: bytes.Repeat([]byte{byte(r.UintN(256))}, 1000+r.IntN([]int{60000, 250000}[r.IntN(2)]))}
	}
	c.Bubble(func() {
		conn, server, client := dial(c, time.Second)
		client.SetMaxRead(1 + r.IntN(5000))
		go func() {
			b := f.Bytes()
			for len(b) > 0 {
				n := min(len(b), 1+r.IntN(60000))
				_, _ = server.Write(b[:n])
				b = b[n:]
				time.Sleep(time.Millisecond)
			}
		}()
		got, err := conn.ReadPeerMessage()
		if err != nil || !bytes.Equal(got, f.Body()) {
			c.Fail("frame of %d bytes is read as %d bytes, %v", len(f.Bytes()), len(got), err)
		}
		same(c, util.NewPeerMessage(got), f)
		_ = conn.Close()
		_ = server.Close()
	})
	c.Eval(1)
	c.Distinct(len(f.Payload), f.Type)
}

// hugeFields decodes the bitfields of torrents with very many pieces.
func hugeFields(c *mon.Case) {
	r := c.R
	n := 60000 + r.IntN(12000)
	switch r.IntN(4) {
	case 0:
		n = 1<<20 + r.IntN(1<<20)
	case 1:
		n = 1 << (15 + r.IntN(6))
	}
	have := make([]bool, n)
	for k := r.IntN(300); k > 0; k-- {
		have[r.IntN(n)] = true
	}
	have[n-1], have[0] = true, r.IntN(2) == 0
	f := ref.BitfieldFrame(have)
	spare := 0
	if n%8 != 0 && r.IntN(2) == 0 {
		f.Payload[len(f.Payload)-1] |= 0xff >> (n % 8)
		spare = 1
	}
	c.Call("decode a bitfield", func() {
		set := util.NewPeerMessage(bytes.Clone(f.Body())).PieceSet(uint(n))
		for i, h := range have {
			if set.Test(uint(i)) != h {
				c.Fail("bitfield of %d pieces: piece %d is announced=%v, decoded as %v", n, i, h, !h)
			}
		}
		for i := n; i < n+8; i++ {
			if set.Test(uint(i)) {
				c.Fail("bitfield of %d pieces is decoded with piece %d in it", n, i)
			}
		}
	})
	c.Eval(1)
	c.Distinct(n, spare)
}

type slowWriter struct{ b []byte }

func (w *slowWriter) Write(b []byte) (int, error) {
	for _, x := range b {
		runtime.Gosched()
		w.b = append(w.b, x)
	}
	return len(b), nil
}

// concurrent encodes and decodes from several goroutines, as sessions do.
func concurrent(c *mon.Case) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	for g := 0; g < 6; g++ {
		r := rand.New(rand.NewPCG(c.R.Uint64(), uint64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var msg string
			defer func() {
				if v := recover(); v != nil {
					msg = fmt.Sprintf("crash: %v", v)
				}
				if msg != "" {
					mu.Lock()
					bad = msg
					mu.Unlock()
				}
			}()
			for k := 0; k < 40 && msg == ""; k++ {
				idx, off, l := num(r), num(r), num(r)
				want := ref.RequestFrame(idx, off, l)
				m := util.CreatePieceMessage(idx, off, l)
				if r.IntN(3) == 0 {
					m, want = util.CreateInterestedMessage(), ref.Frame{Type: ref.Interested}
				}
				if r.IntN(4) == 0 {
					m, want = util.KeepalivePeerMessage, ref.Frame{Type: ref.Keepalive}
				}
				var w slowWriter
				if _, err := m.Send(&w); err != nil || !bytes.Equal(w.b, want.Bytes()) {
					msg = fmt.Sprintf("sent next to other messages, %x goes out as %x (%v)", want.Bytes(), w.b, err)
					return
				}
				f := randFrame(r)
				d := util.NewPeerMessage(bytes.Clone(f.Body()))
				runtime.Gosched()
				var v slowWriter
				if _, err := d.Send(&v); err != nil || !bytes.Equal(v.b, f.Bytes()) {
					msg = fmt.Sprintf("decoded next to other messages, %x goes out as %x (%v)", head(f.Bytes()), head(v.b), err)
				}
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		c.Fail("%s", bad)
	}
	c.Eval(480)
	c.Distinct(c.R.Uint64())
}
