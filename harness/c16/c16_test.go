package c16

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/tracker"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C16",
		mon.Family{Name: "request", Quick: 18000, Thorough: 180000, Fn: request},
		mon.Family{Name: "response", Quick: 24000, Thorough: 240000, Fn: response},
		mon.Family{Name: "long", Quick: 288, Thorough: 2880, Fn: long},
		mon.Family{Name: "mutated", Quick: 18000, Thorough: 180000, Fn: mutated},
		mon.Family{Name: "truncated", Quick: 1800, Thorough: 18000, Fn: truncated},
		mon.Family{Name: "sequence", Quick: 7200, Thorough: 72000, Fn: sequence},
		mon.Family{Name: "patience", Quick: 2400, Thorough: 24000, Fn: patience},
		mon.Family{Name: "loopback", Quick: 960, Thorough: 9600, Fn: loopback},
	)
}

const base = "http://tracker.test/announce"

func randNum(r *rand.Rand) uint64 {
	return []uint64{0, 1, 9, 10, 1 << 31, 1 << 32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, r.Uint64(), r.Uint64() >> uint(r.IntN(64))}[r.IntN(11)]
}

func randHash(r *rand.Rand) string {
	b := make([]byte, 20)
	for i := range b {
		switch r.IntN(4) {
		case 0:
			b[i] = " +&=%#?;/\x00\xff~.-_*"[r.IntN(16)]
		default:
			b[i] = byte(r.IntN(256))
		}
	}
	return string(b)
}

func randData(r *rand.Rand) *gotit.AnnounceData {
	return &gotit.AnnounceData{Downloaded: randNum(r), Uploaded: randNum(r), Left: randNum(r),
		Port: []int{1, 80, 6881, 32768, 65535, 1 + r.IntN(65535)}[r.IntN(6)]}
}

// announce makes one announce with the real tracker client.
func announce(c *mon.Case, t gotit.Tracker, hash string, data *gotit.AnnounceData) (ips []netip.AddrPort, err error) {
	c.Call("announce", func() { ips, err = t.Announce(context.Background(), hash, data) })
	return
}

func newTracker(c *mon.Case, addr string) gotit.Tracker {
	var t gotit.Tracker
	var err error
	c.Call("new tracker", func() { t, err = tracker.New(addr, zap.NewNop()) })
	if err != nil {
		c.Fail("tracker %s is refused: %v", addr, err)
	}
	return t
}

// request checks what is asked.
func request(c *mon.Case) {
	r := c.R
	host := []string{"tracker.test", "tracker.test:8080", "10.1.2.3:6969", "[2001:db8::1]:80"}[r.IntN(4)]
	path := []string{"/announce", "/announce.php", "/a/b/c", "/", "", "/x%20y/announce", "/pass/0123abcd/announce"}[r.IntN(7)]
	scheme := []string{"http", "https"}[r.IntN(2)]
	addr := scheme + "://" + host + path
	own := url.Values{}
	if r.IntN(2) == 0 {
		var parts []string
		for i := 1 + r.IntN(4); i > 0; i-- {
			k := []string{"passkey", "k", "uid", "auth", "a b", "x"}[r.IntN(6)]
			v := []string{"", "1", "abc/def", "a b+c", "\x00\xff", "info", "%20", "é"}[r.IntN(8)]
			own.Add(k, v)
			parts = append(parts, url.QueryEscape(k)+"="+url.QueryEscape(v))
		}
		addr += "?" + strings.Join(parts, "&")
	}
	w := swarm.New(c, nil, "")
	u, err := url.Parse(addr)
	if err != nil {
		c.Harness("%v", err)
	}
	st := w.AddTracker(&swarm.Tracker{URL: addr})
	tr := newTracker(c, addr)
	for n := 0; n < 3; n++ {
		hash, data := randHash(r), randData(r)
		given := *data
		if _, err := announce(c, tr, hash, data); err != nil {
			c.Fail("announce to %s fails: %v", addr, err)
		}
		seen := st.Seen()
		if len(seen) != n+1 {
			c.Fail("%d requests after %d announces to %s", len(seen), n+1, addr)
		}
		a := seen[n]
		fail := func(what string, got, want any) {
			c.Fail("announce %d to %s with hash %q and %+v asks %s: %s is %q, want %q", n, addr, hash, given, a.URL, what, got, want)
		}
		if *data != given {
			c.Fail("announce changes the totals it was given: %+v, were %+v", *data, given)
		}
		if a.Method != "GET" {
			fail("method", a.Method, "GET")
		}
		if a.URL.Scheme != scheme || a.URL.Host != u.Host || a.URL.EscapedPath() != u.EscapedPath() && !(u.Path == "" && a.URL.Path == "/") {
			fail("address", a.URL.String(), addr)
		}
		q, err := url.ParseQuery(a.URL.RawQuery)
		if err != nil {
			c.Fail("query of %s is malformed: %v", a.URL, err)
		}
		for k, want := range map[string]string{
			"info_hash": hash, "peer_id": string(peer.ClientId), "port": strconv.Itoa(given.Port),
			"downloaded": strconv.FormatUint(given.Downloaded, 10), "uploaded": strconv.FormatUint(given.Uploaded, 10), "left": strconv.FormatUint(given.Left, 10),
		} {
			if got := q[k]; len(got) != 1 || got[0] != want {
				fail(k, strings.Join(got, "|"), want)
			}
		}
		for k, want := range own {
			got := q[k]
			if strings.Join(got, "\x01") != strings.Join(want, "\x01") {
				fail("parameter "+k, strings.Join(got, "|"), strings.Join(want, "|"))
			}
		}
		c.Eval(1)
		c.Count("requests compared", 1)
		c.Distinct(addr, hash, given)
	}
	c.Sample("%s", st.Seen()[0].URL)
	_ = tr.Close()
}

func randPeers(r *rand.Rand, n int) []netip.AddrPort {
	out := make([]netip.AddrPort, n)
	for i := range out {
		var ip [4]byte
		for j := range ip {
			ip[j] = byte(r.IntN(256))
			if r.IntN(6) == 0 {
				ip[j] = []byte{0, 1, 10, 127, 128, 255}[r.IntN(6)]
			}
		}
		if ip == [4]byte{} {
			ip[3] = 1
		}
		port := uint16(1 + r.IntN(65535))
		if r.IntN(5) == 0 {
			port = []uint16{1, 255, 256, 32767, 32768, 65535}[r.IntN(6)]
		}
		out[i] = netip.AddrPortFrom(netip.AddrFrom4(ip), port)
		if i > 0 && r.IntN(8) == 0 {
			out[i] = out[r.IntN(i)] // listed twice
		}
	}
	return out
}

var badIPs = []string{"", "tracker.test", "256.1.1.1", "1.2.3", "1.2.3.4.5", "1.2.3.4:80", ":::", "12345::", " 1.2.3.4", "1.2.3.4\x00", "-1.2.3.4"}
var badPorts = []int64{-1, 65536, 65537, 99999999, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 80}

// expectation of a body.
type expect struct {
	err   bool // has to be refused
	loose bool // may be refused
	peers []netip.AddrPort
}

// body makes a response and what it means.
func body(r *rand.Rand) (*ref.Val, expect) {
	return bodyOf(r, []int{0, 1, 2, 3, 50, 200, r.IntN(20)}[r.IntN(7)])
}

func bodyOf(r *rand.Rand, n int) (*ref.Val, expect) {
	peers := randPeers(r, n)
	d := ref.D()
	var e expect
	e.peers = peers
	dict := r.IntN(2) == 0
	if !dict {
		d.Put("peers", ref.B(swarm.Compact(peers)))
	} else {
		l := ref.L()
		e.peers = nil
		for _, p := range peers {
			ip, port := p.Addr().String(), int64(p.Port())
			ok := true
			switch r.IntN(8) {
			case 0:
				ip, ok = badIPs[r.IntN(len(badIPs))], false
			case 1:
				port, ok = badPorts[r.IntN(len(badPorts))], false
			case 2:
				a := netip.MustParseAddr([]string{"2001:db8::1", "::1", "fe80::1234:5678", "2001:db8:1:2:3:4:5:6"}[r.IntN(4)])
				p = netip.AddrPortFrom(a, p.Port())
				ip = a.String()
			}
			entry := ref.D("ip", ref.S(ip))
			if r.IntN(2) == 0 {
				entry.Put("peer id", ref.B(ref.RandBytes(r, 20)))
			}
			entry.Put("port", ref.I(port))
			if r.IntN(6) == 0 {
				entry.Put("x", ref.RandVal(r, 2, 5))
			}
			if r.IntN(3) == 0 {
				entry = entry.Shuffle(r)
			}
			l.L = append(l.L, entry)
			if ok {
				e.peers = append(e.peers, p)
			}
		}
		d.Put("peers", l)
	}
	if r.IntN(2) == 0 {
		d.Put("interval", ref.I(int64([]int{1, 60, 1800, 0, -5, 1 << 40}[r.IntN(6)])))
	}
	if r.IntN(3) == 0 {
		d.Put("min interval", ref.I(int64(r.IntN(900))))
		d.Put("complete", ref.I(int64(r.IntN(9000))))
		d.Put("incomplete", ref.I(int64(r.IntN(9000))))
	}
	if r.IntN(5) == 0 {
		d.Put("tracker id", ref.S("abc"))
	}
	if r.IntN(5) == 0 {
		d.Put("warning message", ref.S("careful"))
	}
	if r.IntN(6) == 0 {
		b := make([]byte, 18*r.IntN(3))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		d.Put("peers6", ref.B(b))
	}
	if r.IntN(6) == 0 {
		d.Put("extra", ref.RandVal(r, 3, 8))
	}
	if r.IntN(8) == 0 {
		d.Put("failure reason", ref.S([]string{"unregistered torrent", "x", "slow down\n", "\x00", " ", "\n", "0", "ok", "none", "no peers", strings.Repeat("long ", 400), "\xff\xfe", "null", "d3:fooe"}[r.IntN(14)]))
		e = expect{err: true}
		if r.IntN(2) == 0 {
			// alone, as trackers do
			f := d.Get("failure reason")
			d = ref.D("failure reason", f)
		}
	}
	return d, e
}

func judge(c *mon.Case, what string, ips []netip.AddrPort, err error, e expect) {
	switch {
	case e.err:
		if err == nil {
			c.Fail("%s: accepted with peers %v, has to be an error", what, ips)
		}
	case e.loose:
		if err == nil && fmt.Sprint(ips) != fmt.Sprint(e.peers) && len(ips)+len(e.peers) > 0 {
			c.Fail("%s: gives %v, it lists %v", what, ips, e.peers)
		}
	default:
		if err != nil {
			c.Fail("%s: refused (%v), it lists %v", what, err, e.peers)
		}
		if len(ips) != len(e.peers) {
			c.Fail("%s: gives %d peers %v, it lists %d: %v", what, len(ips), ips, len(e.peers), e.peers)
		}
		for i := range ips {
			if ips[i] != e.peers[i] {
				c.Fail("%s: peer %d is %v, listed is %v", what, i, ips[i], e.peers[i])
			}
		}
	}
	if err != nil && len(ips) > 0 {
		c.Fail("%s: error %v together with peers %v", what, err, ips)
	}
}

func one(c *mon.Case, reply swarm.Reply) ([]netip.AddrPort, error) {
	w := swarm.New(c, nil, "")
	w.AddTracker(&swarm.Tracker{URL: base, Answer: func(int, *swarm.Announce) swarm.Reply { return reply }})
	tr := newTracker(c, base)
	defer tr.Close()
	return announce(c, tr, randHash(c.R), randData(c.R))
}

// long checks responses far beyond the usual size: a client may not cut them
// off and take what is left for the whole.
func long(c *mon.Case) {
	r := c.R
	var d *ref.Val
	var e expect
	if r.IntN(3) > 0 {
		d, e = bodyOf(r, []int{700, 3000, 11000, 20000, 45000, 200 + r.IntN(20000)}[r.IntN(6)])
	} else {
		d, e = body(r)
		pad := ref.RandBytes(r, []int{4096, 65536, 1 << 17, 1 << 20, 3 << 20, 60000 + r.IntN(1<<20)}[r.IntN(6)])
		d.Put([]string{"a", "warning message", "z"}[r.IntN(3)], ref.B(pad))
		if e.err {
			e = expect{err: true}
		}
	}
	if r.IntN(2) == 0 {
		d = d.Shuffle(r)
	}
	raw := d.Encode()
	ips, err := one(c, swarm.Reply{Body: raw})
	what := fmt.Sprintf("response of %d bytes %.100q", len(raw), raw)
	if err == nil && !e.err && len(ips) != len(e.peers) {
		c.Fail("%s: gives %d peers, it lists %d", what, len(ips), len(e.peers))
	}
	if err != nil && !e.err {
		c.Fail("%s: refused (%.200v), it lists %d peers", what, err, len(e.peers))
	}
	judge(c, what, ips, err, e)
	c.Eval(1)
	c.Count("long responses judged", 1)
	c.Distinct(len(raw), len(e.peers))
}

func response(c *mon.Case) {
	r := c.R
	d, e := body(r)
	if r.IntN(2) == 0 {
		d = d.Shuffle(r)
	}
	raw := d.Encode()
	reply := swarm.Reply{Body: raw}
	what := fmt.Sprintf("response %.300q", raw)
	if r.IntN(8) == 0 {
		reply.Status = []int{400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 504}[r.IntN(11)]
		e = expect{err: true}
		what = fmt.Sprintf("status %d with %.200q", reply.Status, raw)
	} else if r.IntN(20) == 0 {
		reply.Err = true
		e = expect{err: true}
		what = "connection error"
	}
	ips, err := one(c, reply)
	judge(c, what, ips, err, e)
	c.Eval(1)
	if e.err {
		c.Count("responses that have to be refused", 1)
	} else {
		c.Count("responses with peers", 1)
		c.Count("peers compared", len(e.peers))
	}
	c.Distinct(raw, reply.Status)
	c.Sample("%s -> %d peers, error %v", what, len(ips), err)
}

// meaning of any body.
func meaning(raw []byte) expect {
	v, n, out := ref.Parse(raw)
	if out != ref.Valid {
		if out == ref.Malformed {
			return expect{loose: true, peers: nil, err: !plausible(raw)}
		}
		return expect{err: true}
	}
	if v.Kind != ref.Dict {
		return expect{err: true}
	}
	seen := map[string]bool{}
	for _, k := range v.Keys {
		if seen[k] {
			return expect{loose: true, err: false, peers: anyPeers}
		}
		seen[k] = true
	}
	if f := v.Get("failure reason"); f != nil {
		if f.Kind != ref.Str {
			return expect{loose: true, peers: anyPeers}
		}
		if len(f.S) > 0 {
			return expect{err: true}
		}
		return expect{loose: true, peers: anyPeers}
	}
	loose := n != len(raw)
	if i := v.Get("interval"); i != nil && i.Kind != ref.Int {
		loose = true
	}
	if p6 := v.Get("peers6"); p6 != nil && p6.Kind != ref.Str {
		loose = true
	}
	p := v.Get("peers")
	switch {
	case p == nil:
		return expect{loose: true}
	case p.Kind == ref.Str:
		var peers []netip.AddrPort
		for i := 0; i+6 <= len(p.S); i += 6 {
			peers = append(peers, netip.AddrPortFrom(netip.AddrFrom4([4]byte(p.S[i:i+4])), uint16(p.S[i+4])<<8|uint16(p.S[i+5])))
			if peers[len(peers)-1].Port() == 0 || peers[len(peers)-1].Addr().IsUnspecified() {
				return expect{loose: true, peers: anyPeers}
			}
		}
		return expect{loose: loose || len(p.S)%6 != 0, peers: peers}
	case p.Kind == ref.List:
		var peers []netip.AddrPort
		for _, x := range p.L {
			if x.Kind != ref.Dict {
				loose = true
				continue
			}
			ip, port := x.Get("ip"), x.Get("port")
			if ip == nil || port == nil || ip.Kind != ref.Str || port.Kind != ref.Int {
				return expect{loose: true, peers: anyPeers}
			}
			a, err := netip.ParseAddr(string(ip.S))
			if err != nil || port.I < 0 || port.I > 65535 {
				continue
			}
			if port.I == 0 || a.IsUnspecified() || a.Zone() != "" {
				return expect{loose: true, peers: anyPeers}
			}
			peers = append(peers, netip.AddrPortFrom(a, uint16(port.I)))
		}
		return expect{loose: loose, peers: peers}
	}
	return expect{loose: true}
}

// anyPeers marks bodies whose meaning is open: only a crash is wrong.
var anyPeers = []netip.AddrPort{{}}

// plausible tells if a lenient decoder could read a dictionary.
func plausible(raw []byte) bool { return len(raw) > 0 && raw[0] == 'd' }

func mutated(c *mon.Case) {
	r := c.R
	var raw []byte
	switch r.IntN(10) {
	case 0:
		raw = ref.RandBytes(r, 60)
	case 1:
		raw = ref.RandVal(r, 3, 10).Encode()
	case 2:
		raw = []byte([]string{"", "d", "de", "le", "i1e", "0:", "<html>busy</html>", "d8:intervali60ee", "d5:peersi5ee", "d5:peersdee", "d5:peersle", "d5:peerslee", "d5:peers3:abce", "d5:peersl1:aee", "d5:peersli5eee",
			"d5:peersldeee", "d5:peersld2:ip7:1.2.3.4eee", "d14:failure reasoni1ee", "d8:interval2:605:peers0:e", "d5:peersld2:ipi5e4:porti5eeee"}[r.IntN(20)])
	default:
		d, _ := body(r)
		raw = d.Encode()
		for k := 1 + r.IntN(4); k > 0 && len(raw) > 0; k-- {
			i := r.IntN(len(raw))
			switch r.IntN(4) {
			case 0:
				raw[i] = byte(r.IntN(256))
			case 1:
				raw = append(raw[:i:i], raw[i+1:]...)
			case 2:
				raw = append(raw[:i:i], append([]byte{"0123456789:eidl-"[r.IntN(16)]}, raw[i:]...)...)
			case 3:
				raw[i] = "0123456789:eidl-"[r.IntN(16)]
			}
		}
	}
	e := meaning(raw)
	ips, err := one(c, swarm.Reply{Body: raw})
	if !(e.loose && len(e.peers) == 1 && !e.peers[0].IsValid()) {
		if e.loose && !e.err && ref.Outcome(outcome(raw)) == ref.Malformed {
			// a lenient decoder may read it, what it reads is not decided here
		} else {
			judge(c, fmt.Sprintf("body %.400q", raw), ips, err, e)
			c.Count("mutated bodies judged", 1)
		}
	}
	c.Eval(1)
	c.Count("mutated bodies", 1)
	c.Distinct(raw)
}

func outcome(raw []byte) ref.Outcome {
	_, _, o := ref.Parse(raw)
	return o
}

// truncated cuts a response at every byte.
func truncated(c *mon.Case) {
	r := c.R
	d, e := body(r)
	raw := d.Encode()
	if len(raw) > 700 {
		raw = raw[:0]
		raw = append(raw, ref.D("interval", ref.I(60), "peers", ref.B(swarm.Compact(randPeers(r, 3)))).Encode()...)
		e = expect{}
	}
	_ = e
	for i := 0; i < len(raw); i++ {
		ips, err := one(c, swarm.Reply{Body: raw[:i]})
		judge(c, fmt.Sprintf("response %q cut after %d bytes", raw, i), ips, err, expect{err: true})
		c.Eval(1)
	}
	c.Count("cut responses", len(raw))
	c.Distinct(raw)
}

// sequence announces again and again with one tracker: an answer is never
// mixed with an earlier one.
func sequence(c *mon.Case) {
	r := c.R
	w := swarm.New(c, nil, "")
	var cur swarm.Reply
	w.AddTracker(&swarm.Tracker{URL: base, Answer: func(int, *swarm.Announce) swarm.Reply { return cur }})
	tr := newTracker(c, base)
	hist := ""
	var kept, copies [][]netip.AddrPort
	for n := 0; n < 8; n++ {
		d, e := body(r)
		raw := d.Encode()
		cur = swarm.Reply{Body: raw}
		kind := "ok"
		switch r.IntN(5) {
		case 0:
			cur.Status, e, kind = 503, expect{err: true}, "503"
		case 1:
			cur.Body, e, kind = raw[:r.IntN(len(raw))], expect{err: true}, "cut"
		case 2:
			cur.Err, e, kind = true, expect{err: true}, "lost"
		}
		if e.err && kind == "ok" {
			kind = "failure"
		}
		hist += kind + " "
		ips, err := announce(c, tr, randHash(r), randData(r))
		judge(c, fmt.Sprintf("announce %d after %s: response %.300q", n, hist, cur.Body), ips, err, e)
		kept, copies = append(kept, ips), append(copies, slices.Clone(ips))
		c.Eval(1)
	}
	for i := range kept {
		if !slices.Equal(kept[i], copies[i]) {
			c.Fail("(%s) list %d of peers was %v when it was returned, after later announces it is %v", hist, i, copies[i], kept[i])
		}
	}
	c.Count("announces in sequences", 8)
	c.Distinct(hist, r.Uint64())
	_ = tr.Close()
}

// patience checks answers that come late, in small parts, not at all or without
// end: one that is complete within 20 seconds is used, and no announce takes
// more than a minute or reads a body for ever.
func patience(c *mon.Case) {
	const inTime, limit, memory = 20 * time.Second, time.Minute, 64 << 20
	r := c.R
	type step struct {
		what  string
		reply swarm.Reply
		e     expect
	}
	var steps []step
	for i := 0; i < 1+r.IntN(3); i++ {
		d, e := body(r)
		raw := d.Encode()
		s := step{reply: swarm.Reply{Body: raw}, e: e}
		slow := time.Duration(r.Int64N(int64(inTime)))
		reads := 1
		switch kind := r.IntN(8); kind {
		case 0:
			s.what, s.reply.Hang, s.e = "never answers", true, expect{err: true}
		case 1:
			s.what, s.reply.Delay, s.e = "answers far too late", limit+time.Duration(r.Int64N(int64(time.Hour))), expect{err: true}
		case 2:
			s.what, s.reply.Delay = "answers late", slow
		case 3, 4:
			// the body in portions, all in time
			s.what = "answers in portions"
			s.reply.Portion = 1 + r.IntN(max(len(raw), 1))
			reads = len(raw)/s.reply.Portion + 2
			s.reply.Delay = time.Duration(r.Int64N(int64(slow) + 1))
			s.reply.Pace = (slow - s.reply.Delay) / time.Duration(reads+1)
		case 5:
			s.what = "trickles"
			s.reply.Portion = 1
			s.reply.Pace = 1 + limit/time.Duration(len(raw)) + time.Duration(r.Int64N(int64(10*time.Minute)))
			s.e = expect{err: true}
		case 6:
			s.what = "never ends, slowly"
			s.reply.Endless, s.reply.Portion = true, 1+r.IntN(2000)
			s.reply.Pace = time.Duration(1 + r.Int64N(int64(5*time.Second)))
			if s.reply.Pace < 10*time.Millisecond {
				s.reply.Pace += 10 * time.Millisecond
			}
			s.e = expect{err: true}
			if r.IntN(2) == 0 {
				s.reply.Status = 500
			}
		case 7:
			if r.IntN(12) > 0 {
				s.what, s.reply.Delay = "answers at once", 0
				break
			}
			s.what = "never ends"
			s.reply.Endless = true
			s.e = expect{err: true}
			if r.IntN(3) == 0 {
				s.reply.Status = 404
			}
		}
		steps = append(steps, s)
	}
	c.Bubble(func() {
		w := swarm.New(c, nil, "")
		n := 0
		w.AddTracker(&swarm.Tracker{URL: base, Answer: func(int, *swarm.Announce) swarm.Reply { return steps[n].reply }})
		tr := newTracker(c, base)
		for n = 0; n < len(steps); n++ {
			s := steps[n]
			before := w.HTTP.Served()
			start := time.Now()
			type res struct {
				ips []netip.AddrPort
				err error
			}
			done := make(chan res, 1)
			ctx, cancel := context.WithCancel(context.Background())
			go func() {
				ips, err := tr.Announce(ctx, randHash(r), randData(r))
				done <- res{ips, err}
			}()
			what := fmt.Sprintf("announce %d, the tracker %s (after %s, then %d bytes every %s)", n, s.what, s.reply.Delay, s.reply.Portion, s.reply.Pace)
			var x res
			end := time.NewTimer(limit + time.Second)
			select {
			case x = <-done:
			case <-end.C:
				cancel()
				c.Report("%s: not over after %s", what, limit)
				return
			}
			cancel()
			took := time.Since(start)
			if got := w.HTTP.Served() - before; got > memory {
				c.Report("%s: %d bytes of the response are read", what, got)
				return
			}
			if took > limit {
				c.Report("%s: took %s", what, took)
				return
			}
			judge(c, fmt.Sprintf("%s, response %.200q", what, s.reply.Body), x.ips, x.err, s.e)
			if n := w.HTTP.Bodies(); n > 0 {
				c.Report("%s: its response is not closed", what)
				return
			}
			c.Eval(1)
			c.Count("answers that: "+s.what, 1)
			c.Distinct(s.what, took, len(s.reply.Body))
		}
		_ = tr.Close()
	})
}

// loopback uses a real server on the loopback interface.
func loopback(c *mon.Case) {
	r := c.R
	d, e := body(r)
	raw := d.Encode()
	kind := r.IntN(8)
	var got url.Values
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		got = req.URL.Query()
		switch kind {
		case 0: // fewer bytes than promised
			rw.Header().Set("Content-Length", strconv.Itoa(len(raw)+10))
			_, _ = rw.Write(raw)
			hijack(rw)
		case 1: // cut in the middle of a chunk
			rw.Header().Set("Content-Length", strconv.Itoa(len(raw)))
			_, _ = rw.Write(raw[:len(raw)/2])
			hijack(rw)
		case 2: // chunks
			for _, b := range bytes.SplitAfter(raw, []byte("e")) {
				_, _ = rw.Write(b)
				rw.(http.Flusher).Flush()
			}
		case 3: // no answer at all
			hijack(rw)
		case 4:
			http.Redirect(rw, req, "/moved?"+req.URL.RawQuery, http.StatusFound)
			kind = 5
		case 6:
			rw.WriteHeader(http.StatusServiceUnavailable)
			_, _ = rw.Write(raw)
		default:
			_, _ = rw.Write(raw)
		}
	}))
	defer srv.Close()
	switch kind {
	case 0, 1, 3, 6:
		e = expect{err: true}
	}
	k := kind
	tr := newTracker(c, srv.URL+"/announce?k=v")
	hash, data := randHash(r), randData(r)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var ips []netip.AddrPort
	var err error
	c.Call("announce", func() { ips, err = tr.Announce(ctx, hash, data) })
	if ctx.Err() != nil {
		c.Count("loopback announces without answer from the machine", 1)
		return
	}
	judge(c, fmt.Sprintf("server of kind %d, response %.200q", k, raw), ips, err, e)
	if got.Get("info_hash") != hash || got.Get("k") != "v" || got.Get("left") != strconv.FormatUint(data.Left, 10) {
		c.Fail("server got %v for hash %q and %+v", got, hash, data)
	}
	c.Eval(1)
	c.Count("announces over a real connection", 1)
	c.Distinct(k, raw)
}

func hijack(rw http.ResponseWriter) {
	if f, ok := rw.(http.Flusher); ok {
		_ = f
	}
	conn, buf, err := rw.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	_ = buf.Flush()
	if t, ok := conn.(*net.TCPConn); ok {
		_ = t.CloseWrite()
	}
	_ = conn.Close()
}
