// Package vnet is an in-memory network. It works under virtual time and shows
// the monitors every byte, dial and close.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// half is one direction of a stream connection.
type half struct {
	mu      sync.Mutex
	buf     []byte
	cap     int // bytes accepted before writes block, -1 unlimited
	maxRead int // most bytes returned by one read, 0 unlimited
	eof     bool
	rclosed bool
	changed chan struct{}
}

func newHalf() *half { return &half{cap: 4 << 20, changed: make(chan struct{})} }

func (h *half) notify() {
	close(h.changed)
	h.changed = make(chan struct{})
}

type deadline struct {
	mu      sync.Mutex
	t       time.Time
	changed chan struct{}
}

func newDeadline() *deadline { return &deadline{changed: make(chan struct{})} }

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.t = t
	close(d.changed)
	d.changed = make(chan struct{})
}

func (d *deadline) get() (time.Time, chan struct{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.t, d.changed
}

// wait blocks until ch is closed, the deadline changes or passes. It returns
// false when the deadline has passed.
func wait(ch chan struct{}, d *deadline) bool {
	t, dch := d.get()
	if t.IsZero() {
		select {
		case <-ch:
		case <-dch:
		}
		return true
	}
	left := time.Until(t)
	if left <= 0 {
		return false
	}
	timer := time.NewTimer(left)
	defer timer.Stop()
	select {
	case <-ch:
	case <-dch:
	case <-timer.C:
		return false
	}
	return true
}

func expired(d *deadline) bool {
	t, _ := d.get()
	return !t.IsZero() && time.Until(t) <= 0
}

// Conn is one end of a stream connection.
type Conn struct {
	name   string
	r, w   *half
	rd, wd *deadline
	once   sync.Once
	closed chan struct{}

	// OnWrite sees every write, OnRead every successful read, OnClose the close.
	// BeforeWrite sees what is about to be written, before the other end can.
	BeforeWrite func(b []byte)

	OnWrite func(b []byte)
	OnRead  func(b []byte)
	OnClose func()
}

// Pipe returns both ends of a stream connection.
func Pipe(name string) (client, server *Conn) {
	a, b := newHalf(), newHalf()
	mk := func(r, w *half, n string) *Conn {
		return &Conn{name: n, r: r, w: w, rd: newDeadline(), wd: newDeadline(), closed: make(chan struct{})}
	}
	return mk(a, b, name), mk(b, a, name)
}

// SetMaxRead limits the bytes one read of this end returns.
func (c *Conn) SetMaxRead(n int) {
	c.r.mu.Lock()
	c.r.maxRead = n
	c.r.mu.Unlock()
}

// SetWriteCap sets how many unread bytes the other end lets this end write.
func (c *Conn) SetWriteCap(n int) {
	c.w.mu.Lock()
	c.w.cap = n
	c.w.mu.Unlock()
}

func (c *Conn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

// Closed is closed when this end is closed.
func (c *Conn) Closed() <-chan struct{} { return c.closed }

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func (c *Conn) Read(b []byte) (int, error) {
	for {
		if c.isClosed() {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if expired(c.rd) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		c.r.mu.Lock()
		if len(c.r.buf) > 0 {
			n := len(b)
			if c.r.maxRead > 0 && n > c.r.maxRead {
				n = c.r.maxRead
			}
			n = copy(b[:n], c.r.buf)
			c.r.buf = c.r.buf[n:]
			c.r.notify()
			c.r.mu.Unlock()
			if c.OnRead != nil {
				c.OnRead(b[:n])
			}
			return n, nil
		}
		if c.r.eof {
			c.r.mu.Unlock()
			return 0, io.EOF
		}
		ch := c.r.changed
		c.r.mu.Unlock()
		if !wait(ch, c.rd) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.BeforeWrite != nil {
		c.BeforeWrite(b)
	}
	total := 0
	for {
		if c.isClosed() {
			return total, c.opErr("write", net.ErrClosed)
		}
		if expired(c.wd) {
			return total, c.opErr("write", os.ErrDeadlineExceeded)
		}
		c.w.mu.Lock()
		if c.w.rclosed {
			c.w.mu.Unlock()
			return total, c.opErr("write", errors.New("broken pipe"))
		}
		room := len(b)
		if c.w.cap >= 0 && room > c.w.cap-len(c.w.buf) {
			room = c.w.cap - len(c.w.buf)
		}
		if room > 0 || len(b) == 0 {
			c.w.buf = append(c.w.buf, b[:room]...)
			c.w.notify()
			c.w.mu.Unlock()
			if c.OnWrite != nil {
				c.OnWrite(b[:room])
			}
			total += room
			b = b[room:]
			if len(b) == 0 {
				return total, nil
			}
			continue
		}
		ch := c.w.changed
		c.w.mu.Unlock()
		if !wait(ch, c.wd) {
			return total, c.opErr("write", os.ErrDeadlineExceeded)
		}
	}
}

func (c *Conn) Close() error {
	first := false
	c.once.Do(func() {
		first = true
		close(c.closed)
		c.w.mu.Lock()
		c.w.eof = true
		c.w.notify()
		c.w.mu.Unlock()
		c.r.mu.Lock()
		c.r.rclosed = true
		c.r.notify()
		c.r.mu.Unlock()
		if c.OnClose != nil {
			c.OnClose()
		}
	})
	if !first {
		return c.opErr("close", net.ErrClosed)
	}
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return addr("local") }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.name) }
func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return c.opErr("set", net.ErrClosed)
	}
	c.rd.set(t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return c.opErr("set", net.ErrClosed)
	}
	c.wd.set(t)
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// PacketConn is the client end of a datagram association.
type PacketConn struct {
	name   string
	mu     sync.Mutex
	in     [][]byte
	ch     chan struct{}
	rd, wd *deadline
	once   sync.Once
	closed chan struct{}
	// Handle gets every datagram written by the client. It runs on the writer's
	// goroutine and may call Deliver.
	Handle func(c *PacketConn, b []byte)
	// WriteErr, when set, fails writes.
	WriteErr func() error
	OnClose  func()
}

// NewPacketConn returns a datagram association handled by fn.
func NewPacketConn(name string, fn func(c *PacketConn, b []byte)) *PacketConn {
	return &PacketConn{name: name, ch: make(chan struct{}), rd: newDeadline(), wd: newDeadline(), closed: make(chan struct{}), Handle: fn}
}

// Deliver queues a datagram for the client.
func (c *PacketConn) Deliver(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, append([]byte(nil), b...))
	close(c.ch)
	c.ch = make(chan struct{})
}

// DeliverAfter queues a datagram later.
func (c *PacketConn) DeliverAfter(d time.Duration, b []byte) {
	if d <= 0 {
		c.Deliver(b)
		return
	}
	b = append([]byte(nil), b...)
	time.AfterFunc(d, func() { c.Deliver(b) })
}

func (c *PacketConn) isClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

func (c *PacketConn) Read(b []byte) (int, error) {
	for {
		if c.isClosed() {
			return 0, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		if expired(c.rd) {
			return 0, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		}
		c.mu.Lock()
		if len(c.in) > 0 {
			n := copy(b, c.in[0]) // the rest of the datagram is lost
			c.in = c.in[1:]
			c.mu.Unlock()
			return n, nil
		}
		ch := c.ch
		c.mu.Unlock()
		if !wait(ch, c.rd) {
			return 0, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		}
	}
}

func (c *PacketConn) Write(b []byte) (int, error) {
	if c.isClosed() {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	}
	if c.WriteErr != nil {
		if err := c.WriteErr(); err != nil {
			return 0, err
		}
	}
	c.Handle(c, append([]byte(nil), b...))
	return len(b), nil
}

func (c *PacketConn) Close() error {
	first := false
	c.once.Do(func() {
		first = true
		close(c.closed)
		c.mu.Lock()
		close(c.ch)
		c.ch = make(chan struct{})
		c.mu.Unlock()
		if c.OnClose != nil {
			c.OnClose()
		}
	})
	if !first {
		return net.ErrClosed
	}
	return nil
}

func (c *PacketConn) LocalAddr() net.Addr  { return addr("local") }
func (c *PacketConn) RemoteAddr() net.Addr { return addr(c.name) }
func (c *PacketConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *PacketConn) SetReadDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.rd.set(t)
	return nil
}
func (c *PacketConn) SetWriteDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.wd.set(t)
	return nil
}

// Host decides what happens when an address is dialled.
type Host struct {
	// DialDelay passes before the dial succeeds or fails.
	DialDelay time.Duration
	// Refuse makes dials fail, with udp the lookup of the name; nil accepts all.
	// It gets the attempt number (0..).
	Refuse func(attempt int) bool
	// Blackhole makes dials run into the dial timeout.
	Blackhole bool
	// Serve runs in its own goroutine for every accepted stream connection.
	Serve func(s *Session)
	// Packet handles datagrams when the address is dialled with udp.
	Packet func(c *PacketConn, b []byte)
}

// Session is one accepted stream connection as seen by the remote side.
type Session struct {
	Addr    string
	Number  int // how many-th connection to this address
	Conn    *Conn
	Client  *Conn
	Opened  time.Time
	stopped <-chan struct{}
}

// Stopped is closed when the network shuts down.
func (s *Session) Stopped() <-chan struct{} { return s.stopped }

// Event is a dial, open or close on the network.
type Event struct {
	At   time.Time
	Kind string
	Addr string
}

// Net is a set of hosts.
type Net struct {
	mu       sync.Mutex
	hosts    map[string]*Host
	dials    map[string]int
	open     map[string]int
	total    int
	maxOpen  map[string]int
	maxTotal int
	busy     map[string]int // dials under way and open streams
	maxBusy  map[string]int
	opened   int
	packets  int
	events   []Event
	stop     chan struct{}
	stopped  bool
	conns    map[*Conn]struct{}
	pconns   map[*PacketConn]struct{}
	wg       sync.WaitGroup

	// Lean keeps no history, only what is open.
	Lean bool
	// OnSession may attach observers to a connection before it is used.
	OnSession func(s *Session)
	// OnDial sees every dial when it starts.
	OnDial func(network, address string, at time.Time)
}

// New returns an empty network.
func New() *Net {
	return &Net{
		hosts: map[string]*Host{}, dials: map[string]int{}, open: map[string]int{}, maxOpen: map[string]int{}, busy: map[string]int{}, maxBusy: map[string]int{},
		stop: make(chan struct{}), conns: map[*Conn]struct{}{}, pconns: map[*PacketConn]struct{}{},
	}
}

// Add puts a host on the network.
func (n *Net) Add(address string, h *Host) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.hosts[address] = h
}

func (n *Net) event(kind, a string) {
	if n.Lean {
		return
	}
	n.events = append(n.events, Event{time.Now(), kind, a})
}

// Dial is the dial seam's replacement for net.DialTimeout.
func (n *Net) Dial(network, address string, timeout time.Duration) (net.Conn, error) {
	n.mu.Lock()
	if n.stopped {
		n.mu.Unlock()
		return nil, fmt.Errorf("dial %s: network is down", address)
	}
	h := n.hosts[address]
	attempt := n.dials[address]
	if !n.Lean || h != nil {
		n.dials[address]++
	}
	n.event("dial", address)
	n.mu.Unlock()
	if n.OnDial != nil {
		n.OnDial(network, address, time.Now())
	}
	if h == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}
	if network == "udp" {
		n.sleep(h.DialDelay)
		if h.Packet == nil || h.Refuse != nil && h.Refuse(attempt) {
			return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("no such host")}
		}
		c := NewPacketConn(address, func(c *PacketConn, b []byte) {
			n.mu.Lock()
			n.packets++
			n.mu.Unlock()
			h.Packet(c, b)
		})
		n.mu.Lock()
		n.pconns[c] = struct{}{}
		n.mu.Unlock()
		c.OnClose = func() {
			n.mu.Lock()
			delete(n.pconns, c)
			n.mu.Unlock()
		}
		return c, nil
	}
	n.mu.Lock()
	n.busy[address]++
	n.maxBusy[address] = max(n.maxBusy[address], n.busy[address])
	n.mu.Unlock()
	accepted := false
	defer func() {
		if !accepted {
			n.mu.Lock()
			n.busy[address]--
			n.mu.Unlock()
		}
	}()
	if h.Blackhole || (timeout > 0 && h.DialDelay >= timeout) {
		if timeout <= 0 {
			timeout = 3 * time.Minute
		}
		n.sleep(timeout)
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
	}
	n.sleep(h.DialDelay)
	if h.Refuse != nil && h.Refuse(attempt) || h.Serve == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}

	accepted = true
	client, server := Pipe(address)
	s := &Session{Addr: address, Conn: server, Client: client, Opened: time.Now(), stopped: n.stop}
	n.mu.Lock()
	if n.stopped {
		n.mu.Unlock()
		return nil, fmt.Errorf("dial %s: network is down", address)
	}
	s.Number = attempt
	n.open[address]++
	n.total++
	n.opened++
	if n.open[address] > n.maxOpen[address] {
		n.maxOpen[address] = n.open[address]
	}
	if n.total > n.maxTotal {
		n.maxTotal = n.total
	}
	n.conns[server] = struct{}{}
	n.event("open", address)
	n.wg.Add(1)
	n.mu.Unlock()
	client.OnClose = func() {
		n.mu.Lock()
		n.open[address]--
		n.busy[address]--
		n.total--
		n.event("close", address)
		n.mu.Unlock()
	}
	if n.OnSession != nil {
		n.OnSession(s)
	}
	go func() {
		defer n.wg.Done()
		defer func() {
			n.mu.Lock()
			delete(n.conns, server)
			n.mu.Unlock()
			_ = server.Close()
		}()
		h.Serve(s)
	}()
	return client, nil
}

func (n *Net) sleep(d time.Duration) {
	if d <= 0 {
		return
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
	case <-n.stop:
	}
}

// Shutdown ends all remote sides and waits for their goroutines.
func (n *Net) Shutdown() {
	n.mu.Lock()
	if !n.stopped {
		n.stopped = true
		close(n.stop)
	}
	conns := n.conns
	n.conns = map[*Conn]struct{}{}
	n.mu.Unlock()
	for c := range conns {
		_ = c.Close()
	}
	n.wg.Wait()
}

// Open returns the number of connections the client has not closed: streams and
// datagram associations.
func (n *Net) Open() (streams, packets int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.total, len(n.pconns)
}

// OpenTo returns the number of open streams to an address.
func (n *Net) OpenTo(address string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.open[address]
}

// Peak returns the most streams open at once, to one address and in total.
func (n *Net) Peak() (perAddr map[string]int, total int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	perAddr = map[string]int{}
	for k, v := range n.maxOpen {
		perAddr[k] = v
	}
	return perAddr, n.maxTotal
}

// Busy returns the most dials and streams to one address at the same time.
func (n *Net) Busy() map[string]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	m := map[string]int{}
	for k, v := range n.maxBusy {
		m[k] = v
	}
	return m
}

// BusyNow returns the number of dials under way and open streams by address.
func (n *Net) BusyNow() map[string]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	m := map[string]int{}
	for k, v := range n.busy {
		if v > 0 {
			m[k] = v
		}
	}
	return m
}

// Dials returns the number of dials to an address.
func (n *Net) Dials(address string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.dials[address]
}

// Stats returns how much happened on the network.
func (n *Net) Stats() (opened, packets int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.opened, n.packets
}

// Events returns all dials, opens and closes so far.
func (n *Net) Events() []Event {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Event(nil), n.events...)
}
