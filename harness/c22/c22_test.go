package c22

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C22",
		mon.Family{Name: "failures", Quick: 400, Thorough: 6000, Fn: failures},
		mon.Family{Name: "inspect", Quick: 240, Thorough: 5000, Fn: inspect},
		mon.Family{Name: "download", Quick: 96, Thorough: 1600, Fn: fetch},
		mon.Family{Name: "levels", Quick: 144, Thorough: 1200, Fn: levels},
		mon.Family{Name: "peers", Quick: 32, Thorough: 480, Fn: peers},
		mon.Family{Name: "interrupt", Quick: 96, Thorough: 1600, Fn: interrupt},
	)
}

// limit for one run of the program; a run takes a second or two.
const limit = 75 * time.Second

// short is for runs without a network.
const short = 25 * time.Second

type run struct {
	code     int
	signal   syscall.Signal // that killed it, 0 if none
	out, err string
	took     time.Duration
	hung     bool
}

// tail shortens long output to its ends.
func tail(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}

func (r run) String() string {
	return fmt.Sprintf("status %d, signal %d, %s\nstdout: %s\nstderr: %s", r.code, r.signal, r.took, tail(r.out), tail(r.err))
}

var crash = regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime error: |goroutine \d+ \[|SIG[A-Z]+: )`)

// program runs the real binary; during is called once it has started.
func program(c *mon.Case, dir string, limit time.Duration, during func(p *os.Process, done <-chan struct{}), args ...string) run {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		c.Harness("VERIF_CLI is not set")
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if strings.HasPrefix(k, "VERIF_") || strings.HasPrefix(k, "GOTIT_") || strings.HasPrefix(strings.ToLower(k), "http") || strings.EqualFold(k, "no_proxy") || k == "HOME" {
			continue
		}
		cmd.Env = append(cmd.Env, kv)
	}
	home := filepath.Join(dir, "home")
	if _, err := os.Stat(home); err != nil {
		home = dir
	}
	cmd.Env = append(cmd.Env, "HOME="+home)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	start := time.Now()
	if err := cmd.Start(); err != nil {
		c.Harness("start %s: %v", bin, err)
	}
	done := make(chan struct{})
	var werr error
	go func() {
		werr = cmd.Wait()
		close(done)
	}()
	if during != nil {
		during(cmd.Process, done)
	}
	r := run{}
	select {
	case <-done:
	case <-time.After(limit):
		r.hung = true
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			_ = cmd.Process.Kill()
			<-done
		}
	}
	r.took = time.Since(start)
	r.out, r.err = out.String(), errb.String()
	var ee *exec.ExitError
	if errors.As(werr, &ee) {
		r.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signal = ws.Signal()
		}
	} else if werr != nil {
		c.Harness("wait: %v", werr)
	}
	c.Count("program runs", 1)
	if !r.hung && (crash.MatchString(r.out) || crash.MatchString(r.err)) {
		c.Fail("gotit %q ends with a Go crash: %s", args, r)
	}
	return r
}

func write(c *mon.Case, path string, data []byte) string {
	if err := os.WriteFile(path, data, 0o644); err != nil {
		c.Harness("%v", err)
	}
	return path
}

func mkdir(c *mon.Case, path string) string {
	if err := os.MkdirAll(path, 0o755); err != nil {
		c.Harness("%v", err)
	}
	return path
}

// expectFailure judges a run that has to fail with a message.
func expectFailure(c *mon.Case, what string, args []string, r run) {
	if r.hung {
		c.Fail("%s: gotit %q does not end within %s: %s", what, args, short, r)
	}
	if r.code == 0 {
		c.Fail("%s: gotit %q ends with status 0: %s", what, args, r)
	}
	if r.signal != 0 {
		c.Fail("%s: gotit %q is killed by a signal: %s", what, args, r)
	}
	if strings.TrimSpace(r.err+r.out) == "" {
		c.Fail("%s: gotit %q gives no message: %s", what, args, r)
	}
	c.Eval(1)
	c.Count("failures reported: "+what, 1)
}

// badTorrent makes a file that is no usable torrent.
func badTorrent(r *rand.Rand, s *swarm.Spec) (string, []byte, bool) {
	doc := func(info *ref.Val) []byte {
		return ref.D("announce", ref.S("http://127.0.0.1:1/a"), "info", info).Encode()
	}
	one := func(length int64, pl int64, pieces int) *ref.Val {
		return ref.D("length", ref.I(length), "name", ref.S("x"), "piece length", ref.I(pl), "pieces", ref.B(make([]byte, pieces)))
	}
	switch r.IntN(14) {
	case 0:
		return "empty file", nil, true
	case 1:
		return "not bencode", []byte("hello world, this is no torrent"), true
	case 2:
		return "truncated", s.Doc[:1+r.IntN(len(s.Doc)-1)], true
	case 3:
		return "a list", ref.L(ref.S("x")).Encode(), true
	case 4:
		return "a number", []byte("i5e"), true
	case 5:
		return "no info", ref.D("announce", ref.S("http://x/")).Encode(), true
	case 6:
		return "info is a string", doc(ref.S("x")), true
	case 7:
		d := ref.D("length", ref.I(10), "name", ref.S("x"), "piece length", ref.L(ref.I(5)), "pieces", ref.B(make([]byte, 40)))
		return "piece length is a list", doc(d), true
	case 8:
		return "piece length zero", doc(one(10, 0, 20)), false
	case 9:
		return "piece length negative", doc(one(10, -5, 20)), false
	case 10:
		return "too few hashes", doc(one(100, 10, 20)), false
	case 11:
		return "odd hashes", doc(one(100, 100, 19)), false
	case 12:
		return "huge string", []byte("d8:announce99999999999999999999:x"), true
	}
	return "negative length", doc(one(-100, 10, 20)), false
}

func failures(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	spec := swarm.Gen(r, swarm.Shape{MaxPieces: 4, MaxPieceLen: 64, Trackers: []string{"http://127.0.0.1:1/announce"}})
	good := write(c, filepath.Join(dir, "good.torrent"), spec.Doc)
	out := mkdir(c, filepath.Join(dir, "out"))
	dl := func(a ...string) []string {
		switch r.IntN(3) {
		case 0:
			return append([]string{"download", "-o", out}, a...)
		case 1:
			return append(append([]string{"download"}, a...), "--out="+out)
		}
		return append([]string{"download", "--out", out}, a...)
	}
	what, args := "", []string(nil)
	cmdOn := func(file string) []string { // either command
		if r.IntN(2) == 0 {
			return []string{"bencode", file}
		}
		return dl(file)
	}
	switch r.IntN(12) {
	case 0:
		what = "bad arguments"
		args = [][]string{
			{"download"}, {"download", good}, {"download", "-o", out}, dl(good, good), {"bencode"}, {"bencode", good, good},
			{"nosuchcommand"}, {"download", "--nosuchflag", good}, {"--nosuchflag"}, dl("-n", "many", good), dl("-p", "here", good),
			dl("-p", "99999999999999999999", good), {"download", "-o"}, {"bencode", "--out", out, good},
		}[r.IntN(14)]
	case 1:
		what = "missing torrent file"
		args = cmdOn(filepath.Join(dir, "nothing.torrent"))
	case 2:
		what = "torrent file is a directory"
		args = cmdOn(out)
	case 3, 4, 5:
		name, data, both := badTorrent(r, spec)
		what = "malformed torrent: " + name
		f := write(c, filepath.Join(dir, "bad.torrent"), data)
		args = dl(f)
		if both {
			args = cmdOn(f)
		}
	case 6:
		what = "missing output directory"
		args = []string{"download", "-o", filepath.Join(dir, "none"), good}
		if r.IntN(3) == 0 {
			args = []string{"download", "-o", filepath.Join(out, "a", "b"), good}
		}
		if r.IntN(5) == 0 {
			args = []string{"download", "-o", "", good}
		}
	case 7:
		what = "output directory is a file"
		args = []string{"download", "-o", []string{good, write(c, filepath.Join(dir, "empty"), nil), "/dev/null"}[r.IntN(3)], good}
	case 8:
		what = "unknown log level"
		lv := []string{"loud", "inf", "debugg", "0", "fatal!", "info,debug"}[r.IntN(6)]
		args = append([]string{"--log-level", lv}, cmdOn(good)...)
		if r.IntN(2) == 0 {
			args = append(cmdOn(good), "-l", lv)
		}
	case 9:
		what = "unknown log format"
		args = append([]string{"--log-format", []string{"xml", "colour", "txt", "jso"}[r.IntN(4)]}, cmdOn(good)...)
	case 10:
		what = "unusable configuration"
		var cfg string
		switch r.IntN(6) {
		case 3:
			cfg = write(c, filepath.Join(dir, "cfg.yaml"), []byte("log:\n  level: chatty\n"))
		case 4:
			cfg = write(c, filepath.Join(dir, "cfg.yaml"), []byte("log:\n  format: xml\n"))
		case 5:
			cfg = write(c, filepath.Join(dir, "cfg.yaml"), []byte("log: 5\n"))
		case 0:
			cfg = filepath.Join(dir, "nothing.yaml")
		case 1:
			cfg = write(c, filepath.Join(dir, "cfg.yaml"), []byte("log: [unclosed\n\tx: : y"))
		case 2:
			cfg = out
		}
		args = append([]string{"--config", cfg}, cmdOn(good)...)
	case 11:
		if os.Geteuid() == 0 {
			return
		}
		what = "output directory is not writable"
		args = dl(good)
		if err := os.Chmod(out, 0o555); err != nil {
			c.Harness("%v", err)
		}
		defer os.Chmod(out, 0o755)
	}
	res := program(c, dir, short, nil, args...)
	expectFailure(c, what, args, res)
	c.Distinct(what, strings.ReplaceAll(strings.Join(args, " "), dir, ""), res.code)
	c.Sample("%s: gotit %s: status %d, %.200q", what, strings.ReplaceAll(strings.Join(args, " "), dir, ""), res.code, res.err)
}

// inspect compares what the bencode command prints with the torrent.
func inspect(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	word := func(p string) string { return fmt.Sprintf("%s%x", p, r.Uint32()) }
	odd := r.IntN(2) == 0
	trackers := []string{"http://" + word("t") + ".test/announce"}
	most := []int{4, 4, 30}[r.IntN(3)]
	for i := r.IntN(most); i > 0; i-- {
		trackers = append(trackers, "udp://"+word("u")+".test:80")
	}
	var urls []string
	for i := r.IntN(most - 1); i > 0; i-- {
		urls = append(urls, "http://"+word("w")+".test/f")
	}
	spec := swarm.Gen(r, swarm.Shape{MaxPieces: 20, MaxPieceLen: 100000, Trackers: trackers, UrlList: urls, Odd: odd})
	doc := ref.D()
	v, _, _ := ref.Parse(spec.Doc)
	var want []string
	comment, by := word("comment "), word("by ")
	if odd {
		comment, by = comment+swarm.OddWord(r), by+swarm.OddWord(r)
	}
	date := int64(r.Uint32())
	*doc = *v
	if r.IntN(2) == 0 {
		doc.Put("comment", ref.S(comment))
		want = append(want, comment)
	}
	if r.IntN(2) == 0 {
		doc.Put("created by", ref.S(by))
		want = append(want, by)
	}
	if r.IntN(2) == 0 {
		doc.Put("creation date", ref.I(date))
		// the machine's zone: any of the days around it
		t := time.Unix(date, 0).Format(time.DateTime)
		want = append(want, t[strings.Index(t, ":"):])
	}
	// sizes as they are in the metadata, whatever the content
	info := doc.Get("info")
	var sizes []size
	if r.IntN(2) == 0 {
		n := int64(1) << r.IntN(50)
		n += r.Int64N(n)
		*info.Get("piece length") = *ref.I(n)
	}
	pieceLen := info.Get("piece length").I
	if spec.Single {
		if r.IntN(2) == 0 {
			info.Get("length").I = int64(1)<<r.IntN(50) + r.Int64N(1000)
		}
		sizes = append(sizes, size{"length", info.Get("length").I})
	} else {
		for i, f := range info.Get("files").L {
			if r.IntN(2) == 0 {
				f.Get("length").I = int64(1)<<r.IntN(50) + r.Int64N(1000)
			}
			sizes = append(sizes, size{strings.Join(spec.Files[i].Path, "/"), f.Get("length").I})
		}
	}
	spec.Hash = sha1.Sum(info.Encode())
	want = append(want, spec.Name, fmt.Sprint(pieceLen), base64.URLEncoding.EncodeToString(spec.Hash[:]))
	want = append(want, trackers...)
	want = append(want, urls...)
	if !spec.Single {
		for _, f := range spec.Files {
			want = append(want, strings.Join(f.Path, "/"))
		}
	}
	name := []string{"x.torrent", "some file.torrent", "no-extension", "ünïcode.torrent", "50%done.torrent"}[r.IntN(5)]
	if r.IntN(8) == 0 {
		doc.Put([]string{"\x00", "zz"}[r.IntN(2)], ref.S(strings.Repeat("x", 1<<20+r.IntN(4<<20))))
	}
	file := write(c, filepath.Join(dir, name), doc.Encode())
	if r.IntN(2) == 0 {
		file = name
	}
	args := []string{"bencode", file}
	if r.IntN(3) == 0 {
		args = append(args, "-l", []string{"debug", "info", "error", "silent", "WARN"}[r.IntN(5)])
	}
	res := program(c, dir, limit, nil, args...)
	if res.hung || res.code != 0 {
		c.Fail("gotit %q on a good torrent: %s", args, res)
	}
	for _, w := range want {
		if !strings.Contains(res.out, w) {
			c.Fail("gotit %q does not print %q: %s\n%s", args, w, res, spec)
		}
	}
	if name == "50%done.torrent" && strings.Contains(res.out, "%!d(") {
		c.Fail("gotit %q garbles the name of the file: %s", args, res)
	}
	for _, x := range sizes {
		if !x.printed(res.out) {
			c.Fail("gotit %q does not print %d bytes as the size of %q: %s\n%s", args, x.n, x.of, res, spec)
		}
	}
	if ents, _ := os.ReadDir(dir); len(ents) != 1 {
		c.Fail("gotit %q leaves files: %v", args, ents)
	}
	c.Eval(1)
	c.Count("metadata values printed", len(want))
	c.Distinct("inspect", spec.Doc)
}

// size is a number of bytes that has to be printed, rounded or not.
type size struct {
	of string
	n  int64
}

var quantity = regexp.MustCompile(`(\d+(?:\.\d+)?) ?([KMGTPE]?)(?:i?B)?\b`)

// printed looks for the size behind the name of what it belongs to.
func (s size) printed(out string) bool {
	for rest := out; ; {
		i := strings.Index(rest, s.of)
		if i < 0 {
			return false
		}
		rest = rest[i+len(s.of):]
		line, _, _ := strings.Cut(rest, "\n")
		for _, m := range quantity.FindAllStringSubmatch(line, -1) {
			v, err := strconv.ParseFloat(m[1], 64)
			if err != nil {
				continue
			}
			for _, base := range []float64{1024, 1000} {
				x := v * math.Pow(base, float64(strings.Index("KMGTPE", m[2])+1))
				if m[2] == "" {
					x = v
				}
				if math.Abs(x-float64(s.n)) <= 0.06*float64(s.n) {
					return true
				}
			}
		}
	}
}

// world is a torrent with peers and a tracker on the loopback network.
type world struct {
	c    *mon.Case
	spec *swarm.Spec
	mu   sync.Mutex
	ln   []net.Listener
	udp  net.PacketConn
	srv  *http.Server
	wg   sync.WaitGroup
	stop chan struct{}
	// what was seen
	ports   []string
	hashes  []string
	served  map[int]int // pieces answered rightly
	addrs   []netip.AddrPort
	conns   []net.Conn
	live    int           // sessions on which the client said something
	reached chan struct{} // a request for data or, with no peers, an announce
	once    sync.Once
}

type behaviour struct {
	have    []bool
	delay   time.Duration
	corrupt int // first answers
	hangs   bool
	never   bool // never unchokes
	after   int  // answers before it hangs
}

func (w *world) signal() { w.once.Do(func() { close(w.reached) }) }

func (w *world) listen() net.Listener {
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		w.c.Harness("listen: %v", err)
	}
	w.ln = append(w.ln, ln)
	return ln
}

func (w *world) sleep(d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
	case <-w.stop:
	}
}

func (w *world) peer(b behaviour) {
	ln := w.listen()
	w.addrs = append(w.addrs, netip.MustParseAddrPort(ln.Addr().String()))
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		for {
			s, err := ln.Accept()
			if err != nil {
				return
			}
			w.mu.Lock()
			w.conns = append(w.conns, s)
			w.mu.Unlock()
			w.wg.Add(1)
			go func() {
				defer w.wg.Done()
				defer s.Close()
				w.serve(s, b)
			}()
		}
	}()
}

func (w *world) serve(s net.Conn, b behaviour) {
	hs := make([]byte, 68)
	if _, err := io.ReadFull(s, hs); err != nil {
		return
	}
	w.mu.Lock()
	w.live++
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.live--
		w.mu.Unlock()
	}()
	_, _ = s.Write(ref.Handshake([8]byte{}, w.spec.Hash[:], []byte("-XX0001-123456789012")))
	_, _ = s.Write(ref.BitfieldFrame(b.have).Bytes())
	answers := 0
	for {
		var n [4]byte
		if _, err := io.ReadFull(s, n[:]); err != nil {
			return
		}
		l := binary.BigEndian.Uint32(n[:])
		if l > 1<<20 {
			return
		}
		body := make([]byte, l)
		if _, err := io.ReadFull(s, body); err != nil {
			return
		}
		if l == 0 {
			continue
		}
		switch body[0] {
		case ref.Interested:
			if b.never {
				w.signal()
				continue
			}
			_, _ = s.Write(ref.Frame{Type: ref.Unchoke}.Bytes())
		case ref.Request:
			if l < 13 {
				return
			}
			w.signal()
			i, at, size := binary.BigEndian.Uint32(body[1:]), binary.BigEndian.Uint32(body[5:]), binary.BigEndian.Uint32(body[9:])
			if b.hangs && answers >= b.after {
				continue
			}
			if int(i) >= w.spec.NumPieces() || int(at)+int(size) > w.spec.PieceSize(int(i)) {
				return
			}
			data := bytes.Clone(w.spec.Piece(int(i))[at : at+size])
			answers++
			if answers <= b.corrupt {
				data[0] ^= 0x55
			} else {
				w.mu.Lock()
				w.served[int(i)]++
				w.mu.Unlock()
			}
			if b.delay > 0 {
				w.sleep(b.delay)
			}
			_, _ = s.Write(ref.PieceFrame(i, at, data).Bytes())
		}
	}
}

// track starts a tracker; the address is needed before the torrent is made.
func (w *world) track(kind string) string {
	switch kind {
	case "udp":
		pc, err := net.ListenPacket("udp4", "127.0.0.1:0")
		if err != nil {
			w.c.Harness("listen: %v", err)
		}
		w.udp = pc
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			buf := make([]byte, 2048)
			for {
				n, from, err := pc.ReadFrom(buf)
				if err != nil {
					return
				}
				b := buf[:n]
				if n == 16 {
					out := append(ref.U32(0), b[12:16]...)
					_, _ = pc.WriteTo(append(out, 1, 2, 3, 4, 5, 6, 7, 8), from)
				} else if n >= 98 {
					w.mu.Lock()
					w.ports = append(w.ports, fmt.Sprint(binary.BigEndian.Uint16(b[96:])))
					w.hashes = append(w.hashes, string(b[16:36]))
					w.mu.Unlock()
					out := append(ref.U32(1), b[12:16]...)
					out = append(out, ref.U32(1000, 1, 1)...)
					_, _ = pc.WriteTo(append(out, swarm.Compact(w.addrs)...), from)
					w.announced()
				}
			}
		}()
		return "udp://" + pc.LocalAddr().String()
	case "dead":
		ln := w.listen()
		u := "http://" + ln.Addr().String() + "/announce"
		_ = ln.Close()
		return u
	}
	ln := w.listen()
	w.srv = &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		q, _ := url.ParseQuery(req.URL.RawQuery)
		w.mu.Lock()
		w.ports = append(w.ports, q.Get("port"))
		w.hashes = append(w.hashes, q.Get("info_hash"))
		w.mu.Unlock()
		if kind == "hang" {
			w.signal()
			select {
			case <-req.Context().Done():
			case <-w.stop:
			}
			return
		}
		_, _ = rw.Write(ref.D("interval", ref.I(1000), "peers", ref.B(swarm.Compact(w.addrs))).Encode())
		w.announced()
	})}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		_ = w.srv.Serve(ln)
	}()
	return "http://" + ln.Addr().String() + "/announce"
}

func (w *world) announced() {
	if len(w.addrs) == 0 {
		w.signal()
	}
}

func (w *world) close() {
	close(w.stop)
	for _, l := range w.ln {
		_ = l.Close()
	}
	if w.udp != nil {
		_ = w.udp.Close()
	}
	if w.srv != nil {
		_ = w.srv.Close()
	}
	w.mu.Lock()
	for _, s := range w.conns {
		_ = s.Close()
	}
	w.mu.Unlock()
	w.wg.Wait()
}

func newWorld(c *mon.Case) *world {
	return &world{c: c, stop: make(chan struct{}), served: map[int]int{}, reached: make(chan struct{})}
}

// honest adds peers that have everything between them.
func (w *world) honest(r *rand.Rand, n int) {
	np := w.spec.NumPieces()
	have := make([][]bool, n)
	for i := range have {
		have[i] = make([]bool, np)
	}
	for p := 0; p < np; p++ {
		have[r.IntN(n)][p] = true
		have[r.IntN(n)][p] = true
	}
	if r.IntN(3) > 0 {
		have[0] = swarm.All(np)
	}
	for i := range have {
		w.peer(behaviour{have: have[i], delay: time.Duration(r.IntN(3)*r.IntN(15)) * time.Millisecond})
	}
}

func fetch(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	w := newWorld(c)
	defer w.close()
	kind := []string{"http", "udp"}[r.IntN(2)]
	trackers := []string{w.track(kind)}
	if r.IntN(4) == 0 {
		trackers = append([]string{w.track("dead")}, trackers...)
	}
	w.spec = swarm.Gen(r, swarm.Shape{MaxPieces: 12, MaxPieceLen: 8192, Big: r.IntN(8) == 0, Trackers: trackers})
	n := 1 + r.IntN(3)
	w.honest(r, n)
	if r.IntN(3) == 0 {
		w.peer(behaviour{have: swarm.All(w.spec.NumPieces()), corrupt: 1 + r.IntN(3)})
		n++
	}
	if r.IntN(5) == 0 {
		w.peer(behaviour{have: swarm.All(w.spec.NumPieces()), hangs: true})
		n++
	}
	raw := w.spec.Doc
	if r.IntN(6) == 0 {
		v, _, _ := ref.Parse(raw)
		v.Put([]string{"\x00", "zz"}[r.IntN(2)], ref.S(strings.Repeat("x", 1<<20+r.IntN(4<<20))))
		raw = v.Encode()
	}
	file := write(c, filepath.Join(dir, "x.torrent"), raw)
	out := mkdir(c, filepath.Join(dir, []string{"out", "out dir", "o/p/q"}[r.IntN(3)]))
	rel, _ := filepath.Rel(dir, out)
	outArg := []string{out, rel, out + "/", "./" + rel}[r.IntN(4)]
	if r.IntN(3) == 0 {
		file = "x.torrent"
	}
	port := 1 + r.IntN(65535)
	args := []string{"download", "-o", outArg, file}
	wantPort := "6666"
	if r.IntN(3) > 0 {
		wantPort = fmt.Sprint(port)
		args = append(args, []string{"-p", "--port"}[r.IntN(2)], wantPort)
	}
	if r.IntN(2) == 0 {
		args = append(args, "-n", fmt.Sprint(n+r.IntN(4)))
	}
	if r.IntN(3) == 0 {
		cfg := write(c, filepath.Join(dir, "c.yaml"), []byte("log:\n  level: info\n"))
		args = append([]string{"--config", cfg}, args...)
	}
	res := program(c, dir, limit, nil, args...)
	if res.hung {
		c.Fail("gotit %q does not end within %s with %d honest peers (%s, %s)\n%s", args, limit, n, kind, w.spec, res)
	}
	if res.code != 0 || res.signal != 0 {
		c.Fail("gotit %q: a complete download does not end with status 0 (%s)\n%s", args, w.spec, res)
	}
	if err := w.spec.Complete(out); err != nil {
		c.Fail("gotit %q ends with status 0, the content is not on disk: %v (%s)\n%s", args, err, w.spec, res)
	}
	w.mu.Lock()
	ports, hashes := append([]string(nil), w.ports...), append([]string(nil), w.hashes...)
	w.mu.Unlock()
	for i := range ports {
		if ports[i] != wantPort {
			c.Fail("gotit %q announces port %q", args, ports[i])
		}
		if hashes[i] != string(w.spec.Hash[:]) {
			c.Fail("gotit %q announces hash %x, it is %x", args, hashes[i], w.spec.Hash)
		}
	}
	c.Eval(1)
	c.Count("downloads by the program", 1)
	c.Distinct("download", kind, w.spec.String(), n)
	c.Sample("gotit %s with %d peers and a %s tracker: status 0 after %s, %s", strings.ReplaceAll(strings.Join(args, " "), dir, ""), n, kind, res.took.Round(time.Millisecond), w.spec)
}

// peers offers more peers than the program may use at once.
func peers(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	w := newWorld(c)
	defer w.close()
	trackers := []string{w.track([]string{"http", "udp"}[r.IntN(2)])}
	w.spec = swarm.NewSpec(r, "p", true, []swarm.File{{Length: 100 * (20 + r.IntN(20))}}, 100, trackers, nil)
	most := []int{1, 2, 3, 5, 30}[r.IntN(5)]
	n := most + 1 + r.IntN(4)
	for i := 0; i < n; i++ {
		w.peer(behaviour{have: swarm.All(w.spec.NumPieces()), delay: time.Duration(most) * 60 * time.Millisecond})
	}
	file := write(c, filepath.Join(dir, "x.torrent"), w.spec.Doc)
	out := mkdir(c, filepath.Join(dir, "out"))
	args := []string{"download", "-o", out, file}
	if most != 30 || r.IntN(2) == 0 {
		args = append(args, [][]string{{"-n", fmt.Sprint(most)}, {"--num-peer", fmt.Sprint(most)}, {fmt.Sprintf("--num-peer=%d", most)}}[r.IntN(3)]...)
	}
	// sessions are counted when the client speaks on them; the end of one is
	// seen a little late, so only an excess that stays counts
	excess, peak := 0, 0
	res := program(c, dir, limit, func(_ *os.Process, done <-chan struct{}) {
		var since time.Time
		end := time.After(limit)
		for {
			select {
			case <-done:
				return
			case <-end:
				return
			case <-time.After(10 * time.Millisecond):
			}
			w.mu.Lock()
			live := w.live
			w.mu.Unlock()
			peak = max(peak, live)
			if live <= most {
				since = time.Time{}
			} else if since.IsZero() {
				since = time.Now()
			} else if time.Since(since) > 500*time.Millisecond {
				excess = max(excess, live)
			}
		}
	}, args...)
	if res.hung || res.code != 0 {
		c.Fail("gotit %q: %s", args, res)
	}
	if excess > 0 {
		c.Fail("gotit %q has %d sessions at once: %s", args, excess, res)
	}
	if err := w.spec.Complete(out); err != nil {
		c.Fail("gotit %q ends with status 0, the content is not on disk: %v (%s)\n%s", args, err, w.spec, res)
	}
	c.Eval(1)
	c.Count("downloads with too many peers on offer", 1)
	c.Distinct("peers", most, n, peak)
	c.Sample("gotit %s with %d peers on offer: at most %d sessions at once", strings.ReplaceAll(strings.Join(args, " "), dir, ""), n, peak)
}

var levelOf = regexp.MustCompile(`\t(?:\x1b\[\d+m)?(DEBUG|INFO|WARN|ERROR|FATAL|PANIC|DPANIC)(?:\x1b\[0m)?\t`)

// levels checks the log lines of a download for every level and format.
func levels(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	w := newWorld(c)
	defer w.close()
	w.spec = nil
	// something to log at every level: a dead tracker (error), a live one and a peer (info, debug)
	trackers := []string{w.track("http"), w.track("dead")}
	w.spec = swarm.Gen(r, swarm.Shape{MaxPieces: 4, MaxPieceLen: 512, Trackers: trackers})
	w.peer(behaviour{have: swarm.All(w.spec.NumPieces())})
	file := write(c, filepath.Join(dir, "x.torrent"), w.spec.Doc)
	out := mkdir(c, filepath.Join(dir, "out"))
	rank := map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "FATAL": 5, "PANIC": 5, "DPANIC": 5}
	withFile := r.IntN(2) == 0
	level := []string{"", "debug", "trace", "info", "warning", "error", "silent", "DEBUG", "warn"}[r.IntN(9)]
	low := map[string]int{"": 1, "debug": 0, "trace": 0, "info": 1, "warning": 2, "warn": 2, "error": 3, "silent": 9, "DEBUG": 0}[level]
	format := []string{"", "text", "color", "json"}[r.IntN(4)]
	if withFile && r.IntN(3) > 0 { // the file decides
		level, low = "", 1
	}
	if withFile && r.IntN(3) > 0 {
		format = ""
	}
	args := []string{"download", "-o", out, file}
	var flags []string
	if level != "" {
		flags = append(flags, [][]string{{"-l", level}, {"--log-level", level}, {"--log-level=" + level}}[r.IntN(3)]...)
	}
	if format != "" {
		flags = append(flags, "--log-format", format)
	}
	if r.IntN(2) == 0 {
		args = append(args, flags...)
	} else {
		args = append(flags, args...)
	}
	// a configuration file sets what no flag says
	config, where := "", ""
	if withFile {
		fileLevel := []string{"", "debug", "info", "warning", "error"}[r.IntN(5)]
		fileFormat := []string{"", "text", "color", "json"}[r.IntN(4)]
		switch {
		case r.IntN(6) == 0:
			config = []string{"other: 1\n", "{}\n", "", "# nothing\n"}[r.IntN(4)]
			fileLevel, fileFormat = "", ""
		case fileLevel == "" && fileFormat == "":
			config = "log: {}\n"
		default:
			config = "log:\n"
			if fileLevel != "" {
				config += "  level: " + fileLevel + "\n"
			}
			if fileFormat != "" {
				config += "  format: \"" + fileFormat + "\"\n"
			}
		}
		switch r.IntN(4) {
		case 0:
			where = "flag"
			args = append([]string{"--config", write(c, filepath.Join(dir, "some.yaml"), []byte(config))}, args...)
		case 1:
			where = "flag"
			args = append(args, "--config="+write(c, filepath.Join(dir, "some.yml"), []byte(config)))
		case 2:
			where = "working directory"
			mkdir(c, filepath.Join(dir, "home"))
			write(c, filepath.Join(dir, ".gotit.yaml"), []byte(config))
		case 3:
			where = "home"
			write(c, filepath.Join(mkdir(c, filepath.Join(dir, "home")), ".gotit.yaml"), []byte(config))
		}
		if level == "" && fileLevel != "" {
			low = map[string]int{"debug": 0, "info": 1, "warning": 2, "error": 3}[fileLevel]
		}
		if format == "" {
			format = fileFormat
		}
		c.Logf("configuration (%s): %q", where, config)
		c.Count("log settings with a configuration file: "+where, 1)
	}
	res := program(c, dir, limit, nil, args...)
	if res.hung || res.code != 0 {
		c.Fail("gotit %q: %s", args, res)
	}
	seen := map[int]int{}
	sc := bufio.NewScanner(strings.NewReader(res.err))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := sc.Text()
		if strings.TrimSpace(line) == "" {
			continue
		}
		name := ""
		if format == "json" {
			var m map[string]any
			if err := json.Unmarshal([]byte(line), &m); err != nil {
				c.Fail("gotit %q writes a line that is not JSON: %q", args, line)
			}
			s, _ := m["level"].(string)
			name = strings.ToUpper(s)
			if s == "" {
				c.Fail("gotit %q writes a log line without a level: %q", args, line)
			}
		} else {
			m := levelOf.FindStringSubmatch(line)
			if m == nil {
				c.Fail("gotit %q (format %q) writes a line that is no text log line: %q", args, format, line)
			}
			name = m[1]
			colored := strings.Contains(m[0], "\x1b[")
			if colored != (format != "text") {
				c.Fail("gotit %q (format %q) writes a line with colors %v: %q", args, format, colored, line)
			}
		}
		k, ok := rank[name]
		if !ok {
			c.Fail("gotit %q writes a log line of unknown level %q: %q", args, name, line)
		}
		if k < low {
			c.Fail("gotit %q (level %q, configuration %q in %s) writes a log line of level %s: %q", args, level, config, where, name, line)
		}
		seen[k]++
	}
	if low <= 1 && seen[1] == 0 {
		c.Fail("gotit %q (level %q, configuration %q in %s) logs nothing at level info: %s", args, level, config, where, res)
	}
	if low == 0 && seen[0] == 0 {
		c.Fail("gotit %q (level %q, configuration %q in %s) logs nothing at level debug: %s", args, level, config, where, res)
	}
	n := 0
	for _, k := range seen {
		n += k
	}
	c.Eval(1)
	c.Count("log lines judged", n)
	c.Distinct("levels", level, format, config, fmt.Sprint(seen))
}

// interrupt stops downloads that cannot finish.
func interrupt(c *mon.Case) {
	r := c.R
	dir, clean := c.Dir()
	defer clean()
	w := newWorld(c)
	defer w.close()
	kind := []string{"http", "udp", "hang", "dead"}[r.IntN(4)]
	tr := w.track(kind)
	w.spec = swarm.Gen(r, swarm.Shape{MaxPieces: 20, MaxPieceLen: 4096, Trackers: []string{tr}})
	all := swarm.All(w.spec.NumPieces())
	mode := r.IntN(4)
	switch mode {
	case 0: // nobody
	case 1:
		w.peer(behaviour{have: all, hangs: true, after: r.IntN(3)})
		w.peer(behaviour{have: all, hangs: true})
	case 2:
		w.peer(behaviour{have: all, never: true})
	case 3:
		w.peer(behaviour{have: all, delay: 400 * time.Millisecond})
	}
	file := write(c, filepath.Join(dir, "x.torrent"), w.spec.Doc)
	out := mkdir(c, filepath.Join(dir, "out"))
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.IntN(2)]
	wait := time.Duration(r.IntN(1200)) * time.Millisecond
	early := r.IntN(6) == 0
	again := r.IntN(3) == 0
	args := []string{"download", "-o", out, file, "-l", "debug"}
	var sent time.Time
	finished := false
	res := program(c, dir, 5*time.Second, func(p *os.Process, done <-chan struct{}) {
		if !early && kind != "dead" {
			select {
			case <-w.reached:
			case <-done:
			case <-time.After(20 * time.Second):
			}
		}
		select {
		case <-time.After(wait):
		case <-done:
			finished = true
			return
		}
		sent = time.Now()
		_ = p.Signal(sig)
		if again {
			time.Sleep(5 * time.Millisecond)
			_ = p.Signal(sig)
		}
		select {
		case <-done:
		case <-time.After(15 * time.Second):
		}
	}, args...)
	what := fmt.Sprintf("gotit %q, %s tracker, peers %d, signal %s", args, kind, mode, sig)
	if res.hung {
		c.Fail("%s: does not end after the signal: %s", what, res)
	}
	if finished {
		if mode != 3 {
			c.Fail("%s: a download that cannot finish ends by itself: %s", what, res)
		}
		c.Count("finished before the signal", 1)
		return
	}
	if !sent.IsZero() && res.signal != 0 && res.signal != sig {
		c.Fail("%s: killed by another signal: %s", what, res)
	}
	// what is on disk is content or nothing
	if img, err := w.spec.Disk(out); err == nil {
		w.mu.Lock()
		for i, on := range w.spec.OnDisk(img) {
			if on {
				if w.served[i] == 0 {
					c.Report("%s: piece %d is on disk, nobody sent it", what, i)
				}
				continue
			}
			for j := 0; j < w.spec.PieceSize(i); j++ {
				if img[i*w.spec.PieceLen+j] != 0 && img[i*w.spec.PieceLen+j] != w.spec.Content[i*w.spec.PieceLen+j] {
					c.Report("%s: piece %d has a wrong byte on disk", what, i)
					break
				}
			}
		}
		w.mu.Unlock()
	}
	c.Eval(1)
	c.Count("interrupts", 1)
	c.Distinct("interrupt", kind, mode, sig, early, again, int(wait/(50*time.Millisecond)))
	c.Sample("%s tracker, peers %d, %s after %s: ended %s later with status %d", kind, mode, sig, wait, time.Since(sent).Round(time.Millisecond), res.code)
}
