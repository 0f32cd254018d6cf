// Package c27 watches the identity the program shows to trackers and peers.
package c27

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C27",
		mon.Family{Name: "together", Quick: 48, Thorough: 800, Fn: func(c *mon.Case) { runs(c, 3+c.R.IntN(10), 0) }},
		mon.Family{Name: "longer", Quick: 24, Thorough: 400, Fn: func(c *mon.Case) { runs(c, 2, 2500*time.Millisecond) }},
	)
}

// prefix is the client's Azureus-style name, in every id.
const prefix = "-GO0100-"

// limit for a program to show up everywhere; it takes a fraction of a second.
const limit = 60 * time.Second

// shown is every id this process has seen, with the run, and how often one
// came back. Ids are drawn at random, so one that comes back by accident is
// possible, if unlikely; twice is not.
var shown = struct {
	mu    sync.Mutex
	m     map[string]string
	again int
}{m: map[string]string{}}

// stage is the network of one run.
type stage struct {
	c     *mon.Case
	spec  *swarm.Spec
	http  net.Listener
	udp   net.PacketConn
	peers []net.Listener

	mu    sync.Mutex
	ids   map[string]string // id: where it was first seen
	seen  map[string]int    // place: how often
	odd   string
	ready chan struct{}
	once  sync.Once
	wg    sync.WaitGroup
	conns map[net.Conn]bool
	over  bool
}

func (s *stage) show(place string, id []byte, hash []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen[place]++
	if !bytes.Equal(hash, s.spec.Hash[:]) && s.odd == "" {
		s.odd = fmt.Sprintf("%s: torrent %x, want %x", place, hash, s.spec.Hash)
	}
	if s.ids[string(id)] == "" {
		s.ids[string(id)] = place
	}
	if len(s.seen) == 2+len(s.peers) {
		s.once.Do(func() { close(s.ready) })
	}
}

func (s *stage) listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		s.c.Harness("listen: %v", err)
	}
	return l
}

func newStage(c *mon.Case, n int) *stage {
	r := c.R
	s := &stage{c: c, ids: map[string]string{}, seen: map[string]int{}, ready: make(chan struct{}), conns: map[net.Conn]bool{}}
	s.http = s.listen()
	var err error
	s.udp, err = net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		c.Harness("listen: %v", err)
	}
	for i := 0; i < 1+r.IntN(3); i++ {
		s.peers = append(s.peers, s.listen())
	}
	s.spec = swarm.Gen(r, swarm.Shape{MaxPieces: 5, MaxPieceLen: 100, Trackers: []string{"http://" + s.http.Addr().String() + "/announce", "udp://" + s.udp.LocalAddr().String()}})
	var addrs []netip.AddrPort
	for i, l := range s.peers {
		addrs = append(addrs, l.Addr().(*net.TCPAddr).AddrPort())
		s.wg.Add(1)
		go s.peer(l, fmt.Sprintf("handshake with peer %d", i))
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		q := req.URL.Query()
		s.show("http announce", []byte(q.Get("peer_id")), []byte(q.Get("info_hash")))
		_, _ = w.Write(ref.D("interval", ref.I(1), "peers", ref.B(swarm.Compact(addrs))).Encode())
	})}
	s.wg.Add(2)
	go func() { defer s.wg.Done(); _ = srv.Serve(s.http) }()
	go func() {
		defer s.wg.Done()
		buf := make([]byte, 1<<16)
		for {
			k, from, err := s.udp.ReadFrom(buf)
			if err != nil {
				_ = srv.Close()
				return
			}
			b := buf[:k]
			switch {
			case k == 16 && binary.BigEndian.Uint64(b) == 0x41727101980:
				_, _ = s.udp.WriteTo(append(append([]byte{0, 0, 0, 0}, b[12:16]...), 0, 0, 0, 0, 0, 0, 0, 9), from)
			case k >= 98:
				s.show("udp announce", b[36:56], b[16:36])
				out := append(append([]byte{0, 0, 0, 1}, b[12:16]...), 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1)
				_, _ = s.udp.WriteTo(append(out, swarm.Compact(addrs)...), from)
			}
		}
	}()
	return s
}

// peer reads handshakes, answers them and ends the session, so that there is
// another one after the next announce.
func (s *stage) peer(l net.Listener, place string) {
	defer s.wg.Done()
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.over {
			_ = conn.Close()
		}
		s.conns[conn] = true
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer conn.Close()
			_ = conn.SetDeadline(time.Now().Add(limit))
			hs := make([]byte, 68)
			if _, err := io.ReadFull(conn, hs); err != nil {
				return
			}
			s.show(place, hs[48:68], hs[28:48])
			_, _ = conn.Write(ref.Handshake([8]byte{}, s.spec.Hash[:], []byte("-VP0001-000000000000")))
			time.Sleep(50 * time.Millisecond)
		}()
	}
}

func (s *stage) close() {
	_ = s.http.Close()
	_ = s.udp.Close()
	for _, l := range s.peers {
		_ = l.Close()
	}
	s.mu.Lock()
	s.over = true
	for c := range s.conns {
		_ = c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

func runs(c *mon.Case, n int, stay time.Duration) {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		c.Harness("VERIF_CLI is not set")
	}
	dir, clean := c.Dir()
	defer clean()
	var stages []*stage
	var cmds []*exec.Cmd
	var outs []*bytes.Buffer
	for i := 0; i < n; i++ {
		s := newStage(c, i)
		defer s.close()
		stages = append(stages, s)
		d := filepath.Join(dir, fmt.Sprint(i))
		if err := os.MkdirAll(filepath.Join(d, "out"), 0o777); err != nil {
			c.Harness("%v", err)
		}
		file := filepath.Join(d, "t.torrent")
		if err := os.WriteFile(file, s.spec.Doc, 0o666); err != nil {
			c.Harness("%v", err)
		}
		cmd := exec.Command(bin, "download", "-o", filepath.Join(d, "out"), file)
		cmd.Dir = d
		for _, kv := range os.Environ() {
			k, _, _ := strings.Cut(kv, "=")
			if strings.HasPrefix(k, "VERIF_") || strings.HasPrefix(k, "GOTIT_") || strings.HasPrefix(strings.ToLower(k), "http") || strings.EqualFold(k, "no_proxy") || k == "HOME" {
				continue
			}
			cmd.Env = append(cmd.Env, kv)
		}
		cmd.Env = append(cmd.Env, "HOME="+d)
		o := &bytes.Buffer{}
		cmd.Stdout, cmd.Stderr = o, o
		cmds, outs = append(cmds, cmd), append(outs, o)
	}
	// all at once
	began := time.Now()
	start := make(chan struct{})
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i, cmd := range cmds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[i] = cmd.Start()
		}()
	}
	close(start)
	wg.Wait()
	end := time.After(limit)
	late := false
	for i, s := range stages {
		if errs[i] != nil {
			c.Harness("start: %v", errs[i])
		}
		select {
		case <-s.ready:
		case <-end:
			late = true
			end = time.After(0)
		}
	}
	time.Sleep(stay)
	for _, cmd := range cmds {
		_ = cmd.Process.Signal(syscall.SIGKILL)
		_ = cmd.Wait()
	}
	here := map[string]int{}
	for i, s := range stages {
		s.mu.Lock()
		what := fmt.Sprintf("run %d of %d: ", i, n)
		for id, place := range s.ids {
			if len(id) != 20 || !strings.HasPrefix(id, prefix) {
				s.mu.Unlock()
				c.Fail("%s%s carries the id %q, want 20 bytes that begin with %s", what, place, id, prefix)
			}
		}
		if len(s.ids) > 1 {
			s.mu.Unlock()
			c.Fail("%sone run shows several ids: %q", what, s.ids)
		}
		if s.odd != "" {
			s.mu.Unlock()
			c.Fail("%s%s", what, s.odd)
		}
		if late && len(s.seen) < 2+len(s.peers) {
			s.mu.Unlock()
			c.Fail("%safter %s the program was only seen at %v\n%s", what, limit, s.seen, outs[i])
		}
		for id := range s.ids {
			if j, ok := here[id]; ok {
				s.mu.Unlock()
				c.Fail("runs %d and %d of %d that started together both carry the id %q", j, i, n, id)
			}
			here[id] = i
			shown.mu.Lock()
			before := shown.m[id]
			shown.m[id] = fmt.Sprintf("run %d of %d started at %s", i, n, began.Format(time.StampMicro))
			name, total := shown.m[id], len(shown.m)
			if before != "" {
				shown.again++
			}
			again := shown.again
			shown.mu.Unlock()
			if again > 1 {
				s.mu.Unlock()
				c.Fail("the id %q of %s was already the one of %s; this is the %dth id to come back after %d runs", id, name, before, again, total)
			}
			c.Distinct(id)
		}
		for _, k := range s.seen {
			c.Count("ids compared", k)
		}
		s.mu.Unlock()
		c.Eval(1)
		c.Count("runs", 1)
	}
}
