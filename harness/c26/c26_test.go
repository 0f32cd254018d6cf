// Package c26 lets writes to the disk fail during downloads.
package c26

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/internal/mon"
	"verif/internal/swarm"
	"verif/internal/vnet"
)

func Test(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ) // a write beyond the limit fails
	mon.Main(t, "C26",
		mon.Family{Name: "start", Quick: 900, Thorough: 12000, Fn: func(c *mon.Case) { world(c, opts{start: true}) }},
		mon.Family{Name: "during", Quick: 1200, Thorough: 16000, Fn: func(c *mon.Case) { world(c, opts{}) }},
		mon.Family{Name: "big", Quick: 60, Thorough: 900, Fn: func(c *mon.Case) { world(c, opts{big: true, start: c.R.IntN(2) == 0}) }},
		mon.Family{Name: "hostile", Quick: 300, Thorough: 4000, Fn: func(c *mon.Case) { world(c, opts{hostile: true, start: c.R.IntN(2) == 0}) }},
		mon.Family{Name: "stopped", Quick: 300, Thorough: 4000, Fn: func(c *mon.Case) { world(c, opts{stop: true, start: c.R.IntN(2) == 0}) }},
		mon.Family{Name: "pace", Quick: 160, Thorough: 2000, Fn: pace},
	)
}

const bound = 15 * time.Second

type opts struct{ start, big, hostile, stop bool }

// disk makes writes fail.
type disk struct {
	c     *mon.Case
	files []*os.File
	saved []int // descriptors of the files that fail now
	limit bool
	old   syscall.Rlimit
}

// fail lets all writes to the file fail.
func (d *disk) fail(i int) {
	if d.saved[i] >= 0 {
		return
	}
	if d.files[i].Fd() == ^uintptr(0) {
		d.c.Fail("file %d is closed during the download", i)
	}
	fd := int(d.files[i].Fd())
	keep, err := syscall.Dup(fd)
	if err != nil {
		d.c.Harness("dup: %v", err)
	}
	ro, err := os.Open(d.files[i].Name())
	if err != nil {
		d.c.Harness("open: %v", err)
	}
	defer ro.Close()
	if err := syscall.Dup3(int(ro.Fd()), fd, syscall.O_CLOEXEC); err != nil {
		d.c.Harness("dup3: %v", err)
	}
	d.saved[i] = keep
}

// full lets writes fail beyond an offset in every file; those across it are done
// in part.
func (d *disk) full(at int) {
	if d.limit {
		return
	}
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &d.old); err != nil {
		d.c.Harness("getrlimit: %v", err)
	}
	l := syscall.Rlimit{Cur: uint64(at), Max: d.old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		d.c.Harness("setrlimit: %v", err)
	}
	d.limit = true
}

// mend makes everything work again.
func (d *disk) mend() {
	for i, k := range d.saved {
		if k < 0 {
			continue
		}
		if fd := d.files[i].Fd(); fd == ^uintptr(0) {
			d.c.Report("file %d is closed during the download", i)
		} else if err := syscall.Dup3(k, int(fd), syscall.O_CLOEXEC); err != nil {
			d.c.Harness("dup3: %v", err)
		}
		_ = syscall.Close(k)
		d.saved[i] = -1
	}
	if d.limit {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &d.old); err != nil {
			d.c.Harness("setrlimit: %v", err)
		}
		d.limit = false
	}
}

func (d *disk) bad() bool {
	for _, k := range d.saved {
		if k >= 0 {
			return true
		}
	}
	return d.limit
}

func world(c *mon.Case, o opts) {
	r := c.R
	url := []string{"http://tracker.test/announce", "udp://tracker.test:80"}[r.IntN(2)]
	sh := swarm.Shape{Trackers: []string{url}, MaxPieces: 25, MaxPieceLen: 800, Big: o.big}
	if o.big {
		sh.MaxPieces = 4
	}
	spec := swarm.Gen(r, sh)
	n := spec.NumPieces()
	// honest peers together have every piece; answers take some time, for a client
	// may try again at once
	peers := 1 + r.IntN(4)
	haves := make([][]bool, peers)
	for i := range haves {
		haves[i] = swarm.RandHave(r, n)
	}
	for p := 0; p < n; p++ {
		haves[r.IntN(peers)][p] = true
	}
	var list []*swarm.Script
	for i, h := range haves {
		s := swarm.Honest(r, swarm.Addr(i+1), h)
		s.Delay = time.Duration(10+r.IntN(200)) * time.Millisecond
		s.DelaySpread = min(s.DelaySpread, 500*time.Millisecond)
		list = append(list, s)
	}
	sessions := 0
	if o.hostile {
		for i := 0; i < 1+r.IntN(3); i++ {
			s := swarm.Hostile(r, swarm.Addr(100+i), swarm.RandHave(r, n))
			s.Delay = time.Duration(10+r.IntN(200)) * time.Millisecond
			most := 1 + r.IntN(3)
			sessions += most
			s.Refuse = func(k int) bool { return k >= most }
			list = append(list, s)
		}
	}
	finish := 10*time.Minute + time.Duration(spec.Blocks())*10*time.Second + time.Duration(sessions)*2*time.Minute
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var addrs []netip.AddrPort
		for _, s := range list {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
			c.Logf("%s", s.Describe())
		}
		c.Logf("%s", spec)
		var mu sync.Mutex
		bad, totals := "", 0
		judge := func(what, s string) {
			down, err := strconv.Atoi(s)
			if err != nil {
				bad = fmt.Sprintf("%s of %q downloaded", what, s)
				return
			}
			if on, _ := stored(spec, dir); down > on && bad == "" {
				bad = fmt.Sprintf("+%s: %s of %d bytes downloaded, on disk are %d bytes of whole pieces", w.Since(), what, down, on)
			}
		}
		iv := 1 + r.IntN(9)
		w.AddTracker(&swarm.Tracker{URL: url, Answer: func(_ int, a *swarm.Announce) swarm.Reply {
			mu.Lock()
			totals++
			judge("announce", a.Downloaded)
			mu.Unlock()
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(iv)}
		}})
		w.Load()
		d := &disk{c: c, files: w.T.OsFiles}
		for range d.files {
			d.saved = append(d.saved, -1)
		}
		defer d.mend()
		hist := ""
		broken := time.Duration(0)
		break1 := func() {
			switch k := r.IntN(4); {
			case k == 0:
				at := 1 + r.IntN(max(1, longest(spec)))
				d.full(at)
				hist += fmt.Sprintf("+%s full at %d; ", w.Since(), at)
			case k == 1:
				for i := range d.files {
					d.fail(i)
				}
				hist += fmt.Sprintf("+%s all files fail; ", w.Since())
			default:
				for j := 0; j < 1+r.IntN(3); j++ {
					i := r.IntN(len(d.files))
					d.fail(i)
					hist += fmt.Sprintf("+%s file %d fails; ", w.Since(), i)
				}
			}
		}
		over := func() bool {
			select {
			case <-w.Done():
				return true
			default:
				return false
			}
		}
		// check judges a moment at which the disk is broken.
		check := func() {
			on, all := stored(spec, dir)
			if w.T.Done() && !all {
				c.Fail("the torrent is reported complete and %d of %d bytes are on disk as whole pieces (%s)\n%s", on, spec.Length, hist, spec)
			}
			if over() && !all {
				c.Fail("the download returned by itself and %d of %d bytes are on disk as whole pieces (%s)\n%s", on, spec.Length, hist, spec)
			}
		}
		if o.start {
			break1()
		}
		w.StartLoaded(len(addrs)+r.IntN(3), 6881)
		for e := 0; e < 1+r.IntN(4) && !over(); e++ {
			if e > 0 || !o.start {
				rest := time.Duration(r.IntN(1+r.IntN(6000))) * time.Millisecond
				if w.Wait(rest) {
					break
				}
				break1()
			}
			last := time.Duration(1+r.IntN(1+r.IntN(40000))) * time.Millisecond
			at := time.Now()
			for k := 0; k < 4 && !w.Wait(last/4); k++ {
				check()
			}
			check()
			broken += time.Since(at)
			if o.stop && r.IntN(2) == 0 && !over() {
				break
			}
			d.mend()
			hist += fmt.Sprintf("+%s mended; ", w.Since())
		}
		wasBad := d.bad()
		finished := false
		if o.stop {
			if !over() && r.IntN(2) == 0 {
				w.Wait(time.Duration(r.IntN(3000)) * time.Millisecond)
			}
			w.Cancel()
			if !w.Wait(bound) {
				d.mend()
				c.Fail("download has not returned %s after it was stopped (%s)\n%s", bound, hist, spec)
			}
			if on, all := stored(spec, dir); w.T.Done() && !all {
				c.Fail("the torrent is reported complete and %d of %d bytes are on disk as whole pieces (%s)\n%s", on, spec.Length, hist, spec)
			}
			d.mend()
		} else {
			finished = w.Wait(finish)
			if !finished {
				img, _ := spec.Disk(dir)
				on := spec.OnDisk(img)
				for i, e := range w.Net.Events() {
					if i > 100 {
						break
					}
					c.Logf("+%s %s %s", e.At.Sub(w.Began()), e.Kind, e.Addr)
				}
				w.Finish()
				c.Fail("download did not finish within %s of virtual time after the disk worked again (%s) although honest peers have every piece; on disk: %v\n%s", finish, hist, on, spec)
			}
		}
		err := w.Err()
		w.Finish()
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			c.Fail("%s (%s)\n%s", bad, hist, spec)
		}
		if finished {
			c.Check(err == nil, "download of complete content returned %v (%s)", err, hist)
			if err := spec.Complete(dir); err != nil {
				c.Fail("finished download has wrong content: %v (%s)\n%s", err, hist, spec)
			}
			c.Count("downloads finished with the exact content", 1)
		} else {
			c.Count("downloads stopped", 1)
			if wasBad {
				c.Count("downloads stopped while writes failed", 1)
			}
		}
		c.Eval(1)
		c.Count("announces judged", totals)
		c.Count("episodes of failing writes", strings.Count(hist, "fail")+strings.Count(hist, "full"))
		c.Count("milliseconds with failing writes", int(broken.Milliseconds()))
		if hist != "" {
			c.Distinct(spec.String(), hist)
			c.Sample("%s: %s", spec, hist)
		}
	})
}

// stored is the number of bytes of whole pieces on disk.
func stored(s *swarm.Spec, dir string) (int, bool) {
	img, err := s.Disk(dir)
	if err != nil {
		return 0, false
	}
	n, all := 0, true
	for i, ok := range s.OnDisk(img) {
		if ok {
			n += s.PieceSize(i)
		} else {
			all = false
		}
	}
	return n, all
}

func longest(s *swarm.Spec) int {
	n := 1
	for _, f := range s.Files {
		n = max(n, f.Length)
	}
	return n
}

// pace counts how often a block is asked for while its writes keep failing, from
// peers that answer at once.
func pace(c *mon.Case) {
	r := c.R
	url := "http://tracker.test/announce"
	spec := swarm.Gen(r, swarm.Shape{Trackers: []string{url}, MaxPieces: 8, MaxPieceLen: 400, Big: r.IntN(6) == 0})
	n := spec.NumPieces()
	var list []*swarm.Script
	for i := 0; i < 1+r.IntN(3); i++ {
		list = append(list, &swarm.Script{Addr: swarm.Addr(i + 1).String(), Have: swarm.All(n), Honest: true, Seed: r.Uint64(), Delay: time.Duration(1+r.IntN(3)) * time.Millisecond})
	}
	last := time.Duration(5+r.IntN(60)) * time.Second
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		var addrs []netip.AddrPort
		for _, s := range list {
			w.AddPeer(s)
			addrs = append(addrs, netip.MustParseAddrPort(s.Addr))
		}
		w.AddTracker(&swarm.Tracker{URL: url, Answer: func(int, *swarm.Announce) swarm.Reply {
			return swarm.Reply{Peers: addrs, Interval: swarm.Int(5)}
		}})
		var mu sync.Mutex
		asked := map[string]int{}
		most := 0
		w.Net.OnSession = func(s *vnet.Session) {
			var in []byte
			skip := 68
			s.Client.BeforeWrite = func(b []byte) {
				mu.Lock()
				defer mu.Unlock()
				in = append(in, b...)
				k := min(skip, len(in))
				in, skip = in[k:], skip-k
				for skip == 0 && len(in) >= 4 {
					l := 4 + int(binary.BigEndian.Uint32(in))
					if len(in) < l {
						return
					}
					if l == 17 && in[4] == 6 {
						asked[string(in[5:13])]++
						most = max(most, asked[string(in[5:13])])
					}
					in = in[l:]
				}
			}
		}
		w.Load()
		d := &disk{c: c, files: w.T.OsFiles}
		for range d.files {
			d.saved = append(d.saved, -1)
		}
		defer d.mend()
		for i := range d.files {
			d.fail(i)
		}
		w.StartLoaded(len(addrs), 6881)
		from := time.Now()
		for time.Since(from) < last && !w.Wait(100*time.Millisecond) {
			mu.Lock()
			now := most
			mu.Unlock()
			if limit := 10 + int(time.Since(from)/time.Second); now > limit {
				c.Report("within %s a block is asked for %d times, while its writes fail\n%s", time.Since(from), now, spec)
				break
			}
		}
		if !c.Violated() {
			if w.T.Done() {
				c.Report("the torrent is reported complete though nothing could be written\n%s", spec)
			}
			d.mend()
			if !w.Wait(10 * time.Minute) {
				c.Report("the download does not finish after the disk is mended\n%s", spec)
			} else if err := spec.Complete(dir); err != nil {
				c.Report("finished download has wrong content: %v\n%s", err, spec)
			}
		}
		d.mend()
		w.Finish()
		c.Eval(1)
		mu.Lock()
		defer mu.Unlock()
		total := 0
		for _, k := range asked {
			total += k
		}
		c.Count("requests while writes failed and after", total)
		c.Distinct(spec.String(), total)
	})
}
