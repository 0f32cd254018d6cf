package c04

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand/v2"
	"net/netip"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"

	"verif/internal/mon"
	"verif/internal/ref"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	mon.Main(t, "C04",
		mon.Family{Name: "decode", Quick: 20000, Thorough: 200000, Fn: decode},
		mon.Family{Name: "large", Quick: 200, Thorough: 2000, Fn: large},
		mon.Family{Name: "wire", Quick: 3000, Thorough: 30000, Fn: wire},
	)
}

var urls = []string{"http://tracker.test/announce", "udp://udp.test:1337", "http://other.test/a?x=1", "udp://second.test:80"}

// disguise rewrites the document of a torrent: unknown keys, nested values with
// tempting names, and entries in any order. The raw info bytes stay known.
func disguise(r *rand.Rand, spec *swarm.Spec) string {
	info, _, out := ref.Parse(spec.Info)
	doc, _, out2 := ref.Parse(spec.Doc)
	if out != ref.Valid || out2 != ref.Valid {
		panic("own document does not parse")
	}
	how := ""
	if r.IntN(3) > 0 {
		how += "extra keys in info;"
		for n := 1 + r.IntN(5); n > 0; n-- {
			put(info, extraKey(r, true), ref.RandVal(r, 3, 12))
		}
	}
	if r.IntN(4) == 0 {
		how += "info in info;"
		put(info, "info", ref.D("name", ref.S("x"), "pieces", ref.B(ref.RandBytes(r, 40))))
	}
	if r.IntN(2) == 0 {
		how += "info shuffled;"
		info = info.Shuffle(r)
	}
	if r.IntN(2) == 0 && info.Get("salt") == nil {
		how += salt(r, info)
	}
	spec.Info = info.Encode()
	spec.Hash = sha1.Sum(spec.Info)

	full := ref.D()
	for i, k := range doc.Keys {
		if k == "info" {
			full.Put(k, info)
		} else {
			full.Put(k, doc.Vals[i])
		}
	}
	if r.IntN(2) == 0 {
		how += "extra keys around;"
		for n := 1 + r.IntN(6); n > 0; n-- {
			put(full, extraKey(r, false), ref.RandVal(r, 3, 12))
		}
	}
	if r.IntN(3) == 0 {
		how += "other dictionaries with an info key;"
		fake := ref.D("info", ref.D("length", ref.I(5), "name", ref.S("fake"), "piece length", ref.I(7), "pieces", ref.B(make([]byte, 20))))
		put(full, []string{"aaa", "infn", "infz", "zzz", "azureus_properties"}[r.IntN(5)], fake)
		if r.IntN(2) == 0 {
			put(full, "info-extra", ref.L(fake, ref.S("d4:infode")))
		}
	}
	if r.IntN(2) == 0 {
		how += "comments;"
		put(full, "comment", ref.B([]byte("4:infod6:lengthi5ee")))
		put(full, "created by", ref.S("4:info"))
		put(full, "creation date", ref.I(int64(r.Uint32())))
	}
	if r.IntN(2) == 0 {
		how += "document shuffled;"
		c := ref.D()
		for _, i := range r.Perm(len(full.Keys)) {
			c.Put(full.Keys[i], full.Vals[i]) // info itself stays as it is
		}
		full = c
	}
	spec.Doc = full.Encode()
	return how
}

// salt adds an entry with which the hash has a delicate byte at its start or end.
func salt(r *rand.Rand, info *ref.Val) string {
	x := []byte("\x00\x00 \n\r\t+%&=#/?\xff\x80\xc2")[r.IntN(16)]
	pos := []int{0, 19}[r.IntN(2)]
	v := ref.I(0)
	info.Put("salt", v)
	for v.I = 1; v.I < 3000; v.I++ {
		if h := sha1.Sum(info.Encode()); h[pos] == x {
			break
		}
	}
	return fmt.Sprintf("hash with %#x at %d;", x, pos)
}

func put(d *ref.Val, k string, v *ref.Val) {
	if d.Get(k) == nil {
		d.Put(k, v)
	}
}

func extraKey(r *rand.Rand, inInfo bool) string {
	keys := []string{"private", "source", "md5sum", "x_cross_seed", "0", "~", "zz", "attr", "sha1", "name.utf-8", "root hash", "meta version", "\x00", "\xff\xfe"}
	if !inInfo {
		keys = append(keys, "nodes", "httpseeds", "publisher", "inf", "infoo", "info ", "Info", "INFO", "\xffinfo")
	}
	if r.IntN(4) == 0 {
		return "x" + string(ref.RandBytes(r, 12))
	}
	return keys[r.IntN(len(keys))]
}

func check(c *mon.Case, spec *swarm.Spec, got []byte, where string) {
	if !bytes.Equal(got, spec.Hash[:]) {
		c.Fail("%s is %x, the SHA-1 of the info bytes in the file is %x\ninfo: %.300q\ndocument: %.600q", where, got, spec.Hash, spec.Info, spec.Doc)
	}
}

func decode(c *mon.Case) {
	spec := swarm.Gen(c.R, swarm.Shape{Trackers: urls[:1+c.R.IntN(4)], MaxPieces: 8, MaxPieceLen: 64})
	how := disguise(c.R, spec)
	var m bencode.Metainfo
	var err error
	c.Call("unmarshal", func() { err = bencode.Unmarshal(append([]byte(nil), spec.Doc...), &m) })
	c.Check(err == nil, "torrent file is refused: %v\n%.600q", err, spec.Doc)
	check(c, spec, m.Hash(), "metainfo hash")
	check(c, spec, m.Hash(), "metainfo hash asked for the second time")
	dir, clean := c.Dir()
	defer clean()
	w := &swarm.World{C: c, Spec: spec, Dir: dir}
	w.Load()
	defer w.T.Close()
	check(c, spec, w.T.Hash, "torrent hash")
	c.Eval(1)
	c.Count("documents hashed", 1)
	c.Distinct(how, spec.Doc)
	c.Sample("%s %.120q -> %x", how, spec.Doc, spec.Hash)
}

// large has an info value of hundreds of kilobytes.
func large(c *mon.Case) {
	r := c.R
	n := 5000 + r.IntN(15000)
	files := []swarm.File{{Length: n}}
	spec := swarm.NewSpec(r, "large", true, files, 1, urls[:1], nil)
	how := disguise(r, spec)
	var m bencode.Metainfo
	err := bencode.Unmarshal(spec.Doc, &m)
	c.Check(err == nil, "torrent file is refused: %v", err)
	check(c, spec, m.Hash(), "metainfo hash")
	c.Eval(1)
	c.Distinct(how, spec.Hash)
	c.Count("documents hashed", 1)
}

// wire watches what goes out during a download.
func wire(c *mon.Case) {
	r := c.R
	used := append([]string(nil), urls[:1+r.IntN(4)]...)
	r.Shuffle(len(used), func(i, j int) { used[i], used[j] = used[j], used[i] })
	spec := swarm.Gen(r, swarm.Shape{Trackers: used, MaxPieces: 6, MaxPieceLen: 600})
	how := disguise(r, spec)
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var mu sync.Mutex
		first := map[*vnet.Session][]byte{}
		w.Net.OnSession = func(s *vnet.Session) {
			s.Client.OnWrite = func(b []byte) {
				mu.Lock()
				defer mu.Unlock()
				if len(first[s]) < 68 {
					first[s] = append(first[s], b...)
				}
			}
		}
		var addrs []netip.AddrPort
		for i := 0; i < 1+r.IntN(3); i++ {
			s := swarm.Honest(r, swarm.Addr(i+1), swarm.All(spec.NumPieces()))
			if i > 0 && r.IntN(2) == 0 {
				s = swarm.Hostile(r, swarm.Addr(i+1), swarm.All(spec.NumPieces()))
			}
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
		}
		for _, u := range used {
			w.AddTracker(&swarm.Tracker{URL: u, Answer: func(n int, _ *swarm.Announce) swarm.Reply {
				if n == 0 {
					return swarm.Reply{Interval: swarm.Int(2), Peers: addrs[:1]}
				}
				return swarm.Reply{Interval: swarm.Int(3), Peers: addrs}
			}})
		}
		w.Start(10, 1+r.IntN(65535))
		w.Wait(time.Duration(5+r.IntN(20)) * time.Second)
		check(c, spec, w.T.Hash, "torrent hash during the download")
		w.Finish()
		ann, hs := 0, 0
		for _, t := range w.Trackers {
			for _, b := range t.Odd() {
				// too short for an announce, which says nothing about the hash
				// unless the hash is not where it has to be
				if len(b) < 36 {
					check(c, spec, b[16:], "hash in a truncated announce to "+t.URL)
				} else {
					check(c, spec, b[16:36], "hash in a truncated announce to "+t.URL)
				}
				ann++
			}
			for i, a := range t.Seen() {
				check(c, spec, []byte(a.Hash), fmt.Sprintf("hash in announce %d to %s", i, t.URL))
				ann++
				if strings.HasPrefix(t.URL, "udp") {
					c.Count("udp announces", 1)
				} else {
					c.Count("http announces", 1)
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for s, b := range first {
			if len(b) < 68 {
				continue
			}
			check(c, spec, b[28:48], fmt.Sprintf("hash in the handshake of connection %d to %s", s.Number, s.Addr))
			hs++
		}
		c.Count("handshakes", hs)
		c.Eval(ann + hs)
		if ann > 0 && hs > 0 {
			c.Distinct(how, spec.Hash)
			c.Sample("%s %d announces and %d handshakes carry %x", how, ann, hs, spec.Hash)
		}
	})
}
