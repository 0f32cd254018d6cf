package swarm

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/netip"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/internal/ref"
	"verif/internal/vnet"
)

// Announce is one announce as a tracker received it.
type Announce struct {
	At         time.Time
	URL        *url.URL
	Method     string
	Query      url.Values
	Packet     []byte // UDP only
	Hash       string
	ID         string
	Port       string
	Downloaded string
	Uploaded   string
	Left       string
}

// Reply of a tracker. The zero value is a good reply without peers.
type Reply struct {
	Delay    time.Duration
	Peers    []netip.AddrPort
	Interval *int // nil: not sent by HTTP, zero in UDP
	Dict     bool // HTTP: peers as dictionaries
	Failure  string
	Status   int
	Body     []byte // HTTP: raw body
	Err      bool   // connection error (HTTP) or lost packet (UDP)
	Hang     bool   // no answer until the client gives up

	// HTTP only: how the body arrives, and when a hanging request ended
	Pace    time.Duration // pause before every portion of the body
	Portion int           // bytes in a portion, all when 0
	Endless bool          // the body is followed by more and more bytes
	Done    func()        // the request is over without an answer
}

// Tracker answers announces of one URL.
type Tracker struct {
	URL string
	// Answer is called with the number of the announce (0..).
	Answer func(n int, a *Announce) Reply

	// Lookup, for UDP, tells if the n-th look for the name (0..) finds nothing.
	Lookup func(n int) bool

	// Connect, for UDP, is the reply to the n-th connect request (0..): Err and
	// Hang give none, Failure an error, Delay a late one.
	Connect func(n int) Reply

	// Lean keeps no announces, only their number.
	Lean bool

	mu   sync.Mutex
	seen []*Announce
	odd  [][]byte
	n    int
	conn int
}

// Seen returns all announces so far.
func (t *Tracker) Seen() []*Announce {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]*Announce(nil), t.seen...)
}

// Odd returns announce packets that are too short to be one.
func (t *Tracker) Odd() [][]byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([][]byte(nil), t.odd...)
}

func (t *Tracker) add(a *Announce) (int, Reply) {
	t.mu.Lock()
	n := t.n
	t.n++
	if !t.Lean {
		t.seen = append(t.seen, a)
	}
	t.mu.Unlock()
	if t.Answer == nil {
		return n, Reply{}
	}
	return n, t.Answer(n, a)
}

// Count returns the number of announces so far.
func (t *Tracker) Count() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n
}

// Int returns a pointer for Reply.Interval.
func Int(n int) *int { return &n }

// Compact encodes IPv4 addresses.
func Compact(peers []netip.AddrPort) []byte {
	var b []byte
	for _, p := range peers {
		ip := p.Addr().As4()
		b = append(b, ip[:]...)
		b = binary.BigEndian.AppendUint16(b, p.Port())
	}
	return b
}

// Body is the bencoded HTTP response of a reply.
func (r Reply) body() []byte {
	if r.Body != nil {
		return r.Body
	}
	d := ref.D()
	if r.Failure != "" {
		d.Put("failure reason", ref.S(r.Failure))
		return d.Encode()
	}
	if r.Interval != nil {
		d.Put("interval", ref.I(int64(*r.Interval)))
	}
	if r.Dict {
		l := ref.L()
		for _, p := range r.Peers {
			l.L = append(l.L, ref.D("ip", ref.S(p.Addr().String()), "port", ref.I(int64(p.Port()))))
		}
		d.Put("peers", l)
	} else {
		d.Put("peers", ref.B(Compact(r.Peers)))
	}
	return d.Encode()
}

// httpWorld routes HTTP requests to trackers.
type httpWorld struct {
	mu       sync.Mutex
	trackers map[string]*Tracker // by host and path
	stop     chan struct{}
	inflight int
	open     []*body // not closed yet
	served   int
	stray    []string
}

var current struct {
	mu sync.Mutex
	w  *httpWorld
}

// Stopping is closed to end requests that hang.
func (w *httpWorld) Stopping() chan struct{} { return w.stop }

type router struct{}

// loopback carries requests to real servers of the harness.
var loopback = &http.Transport{DisableKeepAlives: true}

func (router) RoundTrip(req *http.Request) (*http.Response, error) {
	current.mu.Lock()
	w := current.w
	current.mu.Unlock()
	if h := req.URL.Hostname(); h == "127.0.0.1" {
		return loopback.RoundTrip(req)
	}
	if w == nil {
		return nil, errors.New("no network")
	}
	return w.roundTrip(req)
}

func init() {
	if t, ok := http.DefaultTransport.(*http.Transport); ok {
		for _, scheme := range []string{"http", "https"} {
			func() {
				defer func() { _ = recover() }()
				t.RegisterProtocol(scheme, router{})
			}()
		}
	}
}

func setHTTP(w *httpWorld) {
	current.mu.Lock()
	current.w = w
	current.mu.Unlock()
}

func (w *httpWorld) roundTrip(req *http.Request) (*http.Response, error) {
	w.mu.Lock()
	t := w.trackers[req.URL.Host+req.URL.Path]
	if t == nil {
		w.stray = append(w.stray, req.URL.String())
		w.mu.Unlock()
		return nil, fmt.Errorf("dial tcp %s: no such host", req.URL.Host)
	}
	w.inflight++
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.inflight--
		w.mu.Unlock()
	}()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}

	q, _ := url.ParseQuery(req.URL.RawQuery)
	u := *req.URL
	_, r := t.add(&Announce{
		At: time.Now(), URL: &u, Method: req.Method, Query: q,
		Hash: q.Get("info_hash"), ID: q.Get("peer_id"), Port: q.Get("port"),
		Downloaded: q.Get("downloaded"), Uploaded: q.Get("uploaded"), Left: q.Get("left"),
	})
	if err := w.pause(req.Context(), r.Delay, r.Hang); err != nil {
		if r.Done != nil {
			r.Done()
		}
		return nil, err
	}
	if r.Err {
		return nil, errors.New("connection reset by tracker")
	}
	status := r.Status
	if status == 0 {
		status = 200
	}
	b := &body{data: r.body(), w: w, ctx: req.Context(), reply: r}
	w.mu.Lock()
	w.open = append(w.open, b)
	w.mu.Unlock()
	return &http.Response{
		StatusCode: status, Status: strconv.Itoa(status) + " x", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, ContentLength: -1, Request: req,
	}, nil
}

// Endless is where a body without end is broken off after all.
const Endless = 72 << 20

// body is a response body the client has to close.
type body struct {
	data  []byte
	read  int
	left  int // bytes of the portion that has arrived
	w     *httpWorld
	ctx   context.Context
	reply Reply
}

func (b *body) Read(p []byte) (int, error) {
	if b.reply.Pace > 0 && b.left == 0 {
		if err := b.w.pause(b.ctx, b.reply.Pace, false); err != nil {
			return 0, err
		}
	}
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	if b.reply.Portion > 0 {
		if b.left == 0 {
			b.left = b.reply.Portion
		}
		p = p[:min(len(p), b.left)]
	}
	if b.reply.Endless {
		p = p[:min(len(p), 1<<16)]
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	if b.reply.Endless {
		if b.read += len(p); b.read > Endless {
			return 0, io.ErrUnexpectedEOF
		}
		clear(p[n:])
		n = len(p)
	} else if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	if b.reply.Portion > 0 {
		b.left -= n
	}
	b.w.mu.Lock()
	b.w.served += n
	b.w.mu.Unlock()
	return n, nil
}

func (b *body) Close() error {
	b.w.mu.Lock()
	defer b.w.mu.Unlock()
	for i, x := range b.w.open {
		if x == b {
			b.w.open = append(b.w.open[:i:i], b.w.open[i+1:]...)
			break
		}
	}
	return nil
}

// Served returns the bytes of bodies read by the client.
func (w *httpWorld) Served() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.served
}

// Bodies returns the number of responses that hold a connection: their body is
// not closed and their request not cancelled.
func (w *httpWorld) Bodies() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := 0
	for _, b := range w.open {
		if b.ctx.Err() == nil { // else the transport has closed it
			n++
		}
	}
	return n
}

func (w *httpWorld) pause(ctx context.Context, d time.Duration, forever bool) error {
	if forever {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-w.stop:
			return errors.New("tracker is gone")
		}
	}
	if d <= 0 {
		return nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	case <-w.stop:
		return errors.New("tracker is gone")
	}
}

// udpHost answers BEP 15 packets for a tracker.
func udpHost(t *Tracker) *vnet.Host {
	const magic = 0x41727101980
	var mu sync.Mutex
	const first = uint64(0x1122334400)
	next := first
	return &vnet.Host{Refuse: t.Lookup, Packet: func(c *vnet.PacketConn, b []byte) {
		if len(b) < 16 {
			return
		}
		action := binary.BigEndian.Uint32(b[8:12])
		switch {
		case action == 0 && binary.BigEndian.Uint64(b) == magic:
			mu.Lock()
			next++
			id := next
			mu.Unlock()
			var r Reply
			if t.Connect != nil {
				r = t.Connect(int(id-first) - 1)
			}
			if r.Err || r.Hang {
				return
			}
			if r.Failure != "" {
				out := binary.BigEndian.AppendUint32(nil, 3)
				out = append(out, b[12:16]...)
				c.DeliverAfter(r.Delay, append(out, r.Failure...))
				return
			}
			out := binary.BigEndian.AppendUint32(nil, 0)
			out = append(out, b[12:16]...)
			out = binary.BigEndian.AppendUint64(out, id)
			if r.Delay > 0 {
				c.DeliverAfter(r.Delay, out)
			} else {
				c.Deliver(out)
			}
		case action == 1 && len(b) < 98:
			t.mu.Lock()
			if len(t.odd) < 16 {
				t.odd = append(t.odd, append([]byte(nil), b...))
			}
			t.mu.Unlock()
		case action == 1:
			mu.Lock()
			id := binary.BigEndian.Uint64(b)
			known := id > first && id <= next
			mu.Unlock()
			if !known {
				return
			}
			num := func(off int) string { return strconv.FormatUint(binary.BigEndian.Uint64(b[off:]), 10) }
			_, r := t.add(&Announce{
				At: time.Now(), Packet: b, Hash: string(b[16:36]), ID: string(b[36:56]),
				Downloaded: num(56), Left: num(64), Uploaded: num(72),
				Port: strconv.Itoa(int(binary.BigEndian.Uint16(b[96:]))),
			})
			if r.Err || r.Hang {
				return
			}
			var out []byte
			if r.Failure != "" {
				out = binary.BigEndian.AppendUint32(nil, 3)
				out = append(out, b[12:16]...)
				out = append(out, r.Failure...)
			} else {
				iv := 0
				if r.Interval != nil {
					iv = *r.Interval
				}
				out = binary.BigEndian.AppendUint32(nil, 1)
				out = append(out, b[12:16]...)
				out = binary.BigEndian.AppendUint32(out, uint32(int32(iv)))
				out = append(out, 0, 0, 0, 1, 0, 0, 0, 1)
				out = append(out, Compact(r.Peers)...)
			}
			c.DeliverAfter(r.Delay, out)
		}
	}}
}

func isUDP(u string) bool { return strings.HasPrefix(u, "udp://") }

// Describe lists announces for traces.
func (t *Tracker) Describe(start time.Time) string {
	var b strings.Builder
	b.WriteString(t.URL)
	for _, a := range t.Seen() {
		fmt.Fprintf(&b, " +%s(down %s left %s)", a.At.Sub(start), a.Downloaded, a.Left)
	}
	return b.String()
}
