// Package c28 compares the progress line with what is going on.
package c28

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"net/netip"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/anivanovic/gotit/pkg/stats"

	"verif/internal/mon"
	"verif/internal/swarm"
)

func Test(t *testing.T) {
	mon.Main(t, "C28",
		mon.Family{Name: "swarm", Quick: 400, Thorough: 8000, Fn: func(c *mon.Case) { progress(c, plan{}) }},
		mon.Family{Name: "large", Quick: 24, Thorough: 400, Fn: func(c *mon.Case) { progress(c, plan{large: true}) }},
		mon.Family{Name: "crowd", Quick: 60, Thorough: 1000, Fn: func(c *mon.Case) { progress(c, plan{crowd: true}) }},
		mon.Family{Name: "given", Quick: 120, Thorough: 2000, Fn: func(c *mon.Case) { progress(c, plan{given: true}) }},
		mon.Family{Name: "values", Quick: 4000, Thorough: 80000, Fn: values},
		mon.Family{Name: "terminal", Quick: 120, Thorough: 2000, Fn: func(c *mon.Case) { progress(c, plan{terminal: true}) }},
	)
}

type plan struct {
	large    bool // pieces large enough to show a speed
	crowd    bool // more addresses than places
	given    bool // totals of earlier downloads are added
	terminal bool // a terminal that is slow, stuck for a while or gone
}

// line is one line as the terminal got it.
type line struct {
	at   time.Time
	text string
}

// screen is the terminal.
type screen struct {
	mu     sync.Mutex
	lines  []line
	writes int
	// pause of a write before it goes on, and whether it fails
	behave func(n int) (time.Duration, error)
}

func (s *screen) Write(p []byte) (int, error) {
	s.mu.Lock()
	n := s.writes
	s.writes++
	s.lines = append(s.lines, line{time.Now(), string(p)})
	f := s.behave
	s.mu.Unlock()
	if f != nil {
		d, err := f(n)
		if d > 0 {
			time.Sleep(d)
		}
		if err != nil {
			return 0, err
		}
	}
	return len(p), nil
}

func (s *screen) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.lines)
}

// scene is what is going on at one moment.
type scene struct {
	at     time.Time
	stored uint64
	busy   map[string]int
	events int
}

var (
	escape = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")
	form   = regexp.MustCompile(`^\s*\|([█ ]*)\|\s*(-?\d+)%\s+downloaded \(([^()]*)\),\s*left \(([^()]*)\),\s*speed \(([^()]*)\),\s*peers \((-?\d+)\),\s*trackers \((-?\d+)\)\s*$`)
	amount = regexp.MustCompile(`^(\d+(?:\.\d+)?) ?([BKMGTPE])$`)
	rate   = regexp.MustCompile(`^(\d+(?:\.\d+)?) ?MB/s$`)
)

// holds tells if a printed amount is one of lo to hi, to the printed digits.
func holds(text string, lo, hi uint64) bool {
	m := amount.FindStringSubmatch(text)
	if m == nil {
		return false
	}
	v, err := strconv.ParseFloat(m[1], 64)
	if err != nil {
		return false
	}
	unit := math.Pow(1024, float64(strings.Index("BKMGTPE", m[2])))
	slack := 0.0500001 * unit
	if m[2] == "B" {
		slack = 0
	}
	return v*unit >= float64(lo)-slack && v*unit <= float64(hi)+slack
}

func progress(c *mon.Case, pl plan) {
	r := c.R
	urls := []string{"http://a.test/announce", "udp://b.test:80", "http://c.test:8080/x/announce", "udp://d.test:6969/announce", "https://e.test/announce"}
	r.Shuffle(len(urls), func(i, j int) { urls[i], urls[j] = urls[j], urls[i] })
	urls = urls[:1+r.IntN(len(urls))]
	working, perhaps := len(urls), 0
	all := append([]string(nil), urls...)
	for _, u := range []string{"wss://f.test/announce", "udp://nowhere.test:80", "ftp://g.test/announce"} {
		if r.IntN(4) == 0 {
			all = append(all, u)
			if strings.HasPrefix(u, "udp") {
				perhaps++ // never found, however often it is looked for
			}
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var spec *swarm.Spec
	if pl.large {
		pieceLen := 1 << (18 + r.IntN(3))
		n := 2 + r.IntN(8)
		spec = swarm.NewSpec(r, "large", true, []swarm.File{{Length: pieceLen*(n-1) + 1 + r.IntN(pieceLen)}}, pieceLen, all, nil)
	} else {
		spec = swarm.Gen(r, swarm.Shape{Trackers: all, MaxPieces: 20, Big: r.IntN(3) == 0})
	}
	np := spec.NumPieces()
	gone := -1
	if !pl.terminal && r.IntN(2) == 0 {
		gone = r.IntN(np)
	}
	peers := 1 + r.IntN(6)
	if pl.crowd {
		peers = 5 + r.IntN(40)
	}
	places := 1 + r.IntN(peers+3)
	if !pl.crowd {
		places = peers + r.IntN(3)
	}
	var scripts []*swarm.Script
	for i := 0; i < peers; i++ {
		have := swarm.RandHave(r, np)
		if i == 0 {
			have = swarm.All(np)
		}
		if gone >= 0 {
			have[gone] = false
		}
		var s *swarm.Script
		if i == 0 || !pl.terminal && r.IntN(2) == 0 {
			s = swarm.Honest(r, swarm.Addr(i+1), have)
		} else {
			s = swarm.Hostile(r, swarm.Addr(i+1), have)
		}
		if i == 0 && pl.terminal {
			s = swarm.Honest(r, swarm.Addr(i+1), have)
			s.Life = 0
		}
		if pl.large {
			s.Delay, s.DelaySpread = time.Duration(20+r.IntN(300))*time.Millisecond, 0
		} else if r.IntN(3) > 0 && !(pl.terminal && i == 0) {
			s.Delay = time.Duration(r.IntN(1500)) * time.Millisecond
		}
		if r.IntN(3) == 0 && i > 0 {
			s.Life = time.Duration(500+r.IntN(20000)) * time.Millisecond
		}
		if r.IntN(3) == 0 && !(pl.terminal && i == 0) {
			s.DialDelay = time.Duration(r.IntN(5000)) * time.Millisecond
		}
		scripts = append(scripts, s)
		c.Logf("%s", s.Describe())
	}
	c.Logf("%s", spec)
	horizon := time.Duration(6+r.IntN(50)) * time.Second
	givenAt, given := -1, uint64(0)
	if pl.given {
		givenAt = r.IntN(6)
		switch r.IntN(4) {
		case 0:
			given = r.Uint64N(uint64(spec.Length) + 1)
		case 1:
			given = uint64(spec.Length) + r.Uint64N(3*uint64(spec.Length)+1)
		case 2:
			given = r.Uint64() >> uint(2+r.IntN(60))
		case 3:
			given = 1 << uint(r.IntN(60))
		}
	}
	dir, clean := c.Dir()
	defer clean()
	c.Bubble(func() {
		w := swarm.New(c, spec, dir)
		out := &screen{}
		if pl.terminal {
			out.behave = terminal(r)
		}
		swarm.Quiet(out)
		var addrs []netip.AddrPort
		for i, s := range scripts {
			w.AddPeer(s)
			addrs = append(addrs, swarm.Addr(i+1))
		}
		if r.IntN(2) == 0 { // nobody listens there
			addrs = append(addrs, swarm.Addr(900), swarm.Addr(901))
		}
		for ti, u := range urls {
			rate := r.IntN(4)
			kinds := make([]int, 32)
			for i := range kinds {
				if r.IntN(4) < rate && !pl.terminal {
					kinds[i] = 1 + r.IntN(4)
				}
			}
			iv := 1 + r.IntN(20)
			w.AddTracker(&swarm.Tracker{URL: u, Answer: func(n int, _ *swarm.Announce) swarm.Reply {
				switch kinds[n%len(kinds)] {
				case 1:
					return swarm.Reply{Err: true}
				case 2:
					return swarm.Reply{Failure: "not now"}
				case 3:
					return swarm.Reply{Delay: time.Duration(1+(n+ti)%7) * time.Second, Peers: addrs, Interval: swarm.Int(iv)}
				case 4:
					return swarm.Reply{Interval: swarm.Int(iv)}
				}
				return swarm.Reply{Peers: addrs, Interval: swarm.Int(iv)}
			}})
		}
		look := func() scene {
			synctest.Wait()
			img, err := spec.Disk(dir)
			if err != nil {
				c.Fail("%v", err)
			}
			var n uint64
			for i, on := range spec.OnDisk(img) {
				if on {
					n += uint64(spec.PieceSize(i))
				}
			}
			return scene{time.Now(), n, w.Net.BusyNow(), len(w.Net.Events())}
		}
		w.Load()
		scenes := []scene{look()}
		began := time.Now()
		w.StartLoaded(places, 6881)
		const near = 7 * time.Millisecond
		k := 0
		var added []time.Time
		finished := false
		winding := time.Time{} // from when on the download may be winding up
		for limit := horizon; !finished && (time.Since(began) < limit || pl.terminal && time.Since(began) < time.Hour); {
			k++
			for _, at := range []time.Duration{time.Duration(k)*time.Second - near, time.Duration(k)*time.Second + near} {
				if finished = w.Wait(time.Until(began.Add(at))); finished {
					break
				}
				scenes = append(scenes, look())
			}
			if k == givenAt {
				if finished = w.Wait(time.Until(began.Add(time.Duration(k)*time.Second + 300*time.Millisecond))); !finished {
					added = append(added, time.Now())
					w.M.UpdateStatus(given, 0)
				}
			}
		}
		if !finished {
			if pl.terminal {
				c.Report("the download does not finish within an hour, though a peer that has everything serves well\n%s", spec)
			}
			winding = time.Now()
			w.Cancel()
			if !w.Wait(5 * time.Minute) {
				c.Fail("the download does not end after it is stopped\n%s", spec)
			}
		}
		scenes = append(scenes, look())
		upTo := out.count()
		time.Sleep(3 * time.Second)
		if n := out.count(); n > upTo {
			c.Report("%d lines are printed after the download has returned", n-upTo)
		}
		w.M.Stop()
		time.Sleep(3 * time.Second)
		out.mu.Lock()
		lines := out.lines
		out.mu.Unlock()
		judge(c, pl, spec, w, lines, scenes, added, given, working, perhaps, places, began, winding)
		if pl.terminal {
			img, err := spec.Disk(dir)
			if err != nil || !w.T.Done() {
				c.Report("the download ends incomplete (%v)", err)
			}
			for i, on := range spec.OnDisk(img) {
				if !on {
					c.Report("piece %d is not on disk", i)
				}
			}
		}
		w.Finish()
	})
	c.Eval(1)
}

// terminal is one that gets stuck, slow or goes away.
func terminal(r *rand.Rand) func(n int) (time.Duration, error) {
	from, for_ := r.IntN(8), 1+r.IntN(30)
	pause := time.Duration(1+r.IntN(20000)) * time.Millisecond
	fails := r.IntN(2) == 0
	return func(n int) (time.Duration, error) {
		if n < from || n >= from+for_ {
			return 0, nil
		}
		if fails {
			return 0, errors.New("write: broken pipe")
		}
		return pause, nil
	}
}

func judge(c *mon.Case, pl plan, spec *swarm.Spec, w *swarm.World, raw []line, scenes []scene, added []time.Time, given uint64, working, perhaps, places int, began, winding time.Time) {
	size := uint64(spec.Length)
	events := w.Net.Events()
	for i, s := range scenes {
		if s.stored == size && (winding.IsZero() || scenes[max(0, i-1)].at.Before(winding)) {
			winding = scenes[max(0, i-1)].at
			break
		}
	}
	var lines []line
	for _, l := range raw {
		if s := escape.ReplaceAllString(l.text, ""); strings.TrimSpace(s) != "" {
			for _, one := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
				lines = append(lines, line{l.at, one})
			}
		}
	}
	// cadence
	if !pl.terminal {
		last := began
		for _, l := range append(append([]line(nil), lines...), line{winding, ""}) {
			gap := l.at.Sub(last)
			if gap > 1500*time.Millisecond {
				c.Report("no progress is printed from %s to %s after the start", last.Sub(began), l.at.Sub(began))
			}
			if l.text != "" && gap < 500*time.Millisecond && last != began {
				c.Report("progress is printed %s and %s after the start", last.Sub(began), l.at.Sub(began))
			}
			last = l.at
		}
	}
	exact := 0
	for _, l := range lines {
		before, after := scenes[0], scenes[len(scenes)-1]
		for _, s := range scenes {
			if s.at.Before(l.at) {
				before = s
			}
		}
		for i := len(scenes) - 1; i >= 0 && scenes[i].at.After(l.at); i-- {
			after = scenes[i]
		}
		if pl.terminal {
			before = scenes[0] // the line may have been made up long before it gets through
		}
		lo, hi := before.stored, after.stored
		for _, at := range added {
			if at.Before(l.at) {
				lo, hi = lo+given, hi+given
			}
		}
		what := fmt.Sprintf("%s after the start: %q (size %d, stored %d to %d", l.at.Sub(began), l.text, size, lo, hi)
		m := form.FindStringSubmatch(l.text)
		if m == nil || !utf8.ValidString(l.text) {
			c.Report("not a progress line: %s)", what)
			return
		}
		// share
		pct, _ := strconv.Atoi(m[2])
		share := func(d uint64) float64 { return 100 * math.Min(1, float64(d)/float64(size)) }
		if float64(pct) < share(lo)-0.500001 || float64(pct) > share(hi)+0.500001 {
			c.Report("wrong percentage: %s, %.2f%% to %.2f%%)", what, share(lo), share(hi))
		}
		width := utf8.RuneCountInString(m[1])
		fill := strings.Count(m[1], "█")
		if width == 0 || strings.TrimRight(m[1], " ") != strings.Repeat("█", fill) || math.Abs(float64(fill)/float64(width)-float64(pct)/100) > 1/float64(width)+1e-6 {
			c.Report("wrong bar: %s)", what)
		}
		left := func(d uint64) uint64 { return size - min(d, size) }
		if !holds(m[3], lo, hi) {
			c.Report("wrong amount downloaded: %s)", what)
		}
		if !holds(m[4], left(hi), left(lo)) {
			c.Report("wrong amount left: %s)", what)
		}
		sp := rate.FindStringSubmatch(m[5])
		took := l.at.Sub(began).Seconds()
		if sp == nil {
			c.Report("no speed: %s)", what)
			return
		}
		v, _ := strconv.ParseFloat(sp[1], 64)
		mib := func(d uint64) float64 { return float64(d) / (1 << 20) / took }
		if eps := 0.0500001 + v*1e-9; !pl.terminal && (v < mib(lo)-eps || v > mib(hi)+eps) {
			c.Report("wrong average speed: %s, %.3f to %.3f MB/s)", what, mib(lo), mib(hi))
		}
		// peers: connections and dials
		may := map[string]bool{}
		must := 0
		for a := range before.busy {
			may[a] = true
			if after.busy[a] > 0 {
				must++
			}
		}
		quiet := after.events == before.events
		for a := range after.busy {
			may[a] = true
		}
		left2 := map[string]bool{}
		for _, e := range events[before.events:max(before.events, after.events)] {
			if e.Kind == "dial" && !strings.Contains(e.Addr, ".test") {
				may[e.Addr] = true
			}
			if e.Kind == "close" || e.Kind == "dial" {
				left2[e.Addr] = true
			}
		}
		for a := range left2 {
			if before.busy[a] > 0 && after.busy[a] > 0 {
				must-- // gone and back
			}
		}
		most := len(may)
		if !l.at.Before(winding) {
			most = places // new peers may end before they are dialled
		}
		n, err := strconv.Atoi(m[6])
		if err != nil || n < must || n > min(most, places) {
			c.Report("wrong number of peers: %s, connected or being connected to %v before and %v after, %d places)", what, before.busy, after.busy, places)
		}
		tr, err := strconv.Atoi(m[7])
		if err != nil || tr < 0 || tr > working+perhaps || tr < working && l.at.Before(winding) {
			c.Report("wrong number of trackers: %s, %d trackers are announced to)\n%s", what, working, spec)
		}
		if lo == hi && quiet {
			exact++
			c.Distinct(l.text)
		}
		c.Count("lines compared", 1)
	}
	c.Count("lines compared with a settled state", exact)
	if len(lines) > 0 {
		c.Sample("%s", lines[len(lines)-1].text)
	}
}

// values checks the line for totals of every size, printed at once.
func values(c *mon.Case) {
	r := c.R
	size := []uint64{1, 2, 3, 7, 99, 100, 101, 199, 200, 201, 1000, 1 << 20, 1<<20 - 1, 3 << 30, 1 << 40, 1 << 60,
		1 + r.Uint64N(300), 1 + r.Uint64()>>uint(2+r.IntN(61))}[r.IntN(18)]
	c.Bubble(func() {
		var out bytes.Buffer
		swarm.Quiet(&out)
		s := stats.NewStats(size)
		pp := stats.NewProgressPrinter(s)
		defer pp.Close()
		start := time.Now()
		var down uint64
		peers, trackers := 0, 0
		for i := 0; i < 8; i++ {
			time.Sleep(time.Duration(1 + r.Int64N(int64([]time.Duration{time.Second, time.Minute, 100 * time.Hour}[r.IntN(3)]))))
			left := size - min(size, down)
			var d uint64
			switch r.IntN(7) {
			case 0:
				d = min(1, left)
			case 1:
				d = left
			case 2:
				d = left - min(left, 1)
			case 3:
				d = size / 200
			case 4:
				if left > 0 {
					d = r.Uint64N(left)
				}
			case 5:
				d = left / uint64(1+r.IntN(100))
			}
			if i == 7 && r.IntN(4) == 0 {
				d += 1 + size/uint64(1+r.IntN(4)) // more than there is
			}
			for k := r.IntN(4); k > 0; k-- {
				if r.IntN(3) > 0 {
					s.AddPeer()
					peers++
				} else if peers > 0 {
					s.RemovePeer()
					peers--
				}
				if r.IntN(3) > 0 {
					s.AddTracker()
					trackers++
				} else if trackers > 0 {
					s.RemoveTracker()
					trackers--
				}
			}
			s.AddDownload(d)
			down += d
			out.Reset()
			c.Call("print", func() { pp.Print() })
			took := time.Since(start).Seconds()
			text := strings.TrimRight(escape.ReplaceAllString(out.String(), ""), "\n")
			what := fmt.Sprintf("%q for %d of %d bytes after %.3f s, %d peers, %d trackers", text, down, size, took, peers, trackers)
			m := form.FindStringSubmatch(text)
			if m == nil || !utf8.ValidString(text) {
				c.Fail("not a progress line: %s", what)
			}
			pct, _ := strconv.Atoi(m[2])
			share := 100 * math.Min(1, float64(down)/float64(size))
			if math.Abs(float64(pct)-share) > 0.500001 {
				c.Fail("wrong percentage: %s", what)
			}
			width, fill := utf8.RuneCountInString(m[1]), strings.Count(m[1], "█")
			if width == 0 || strings.TrimRight(m[1], " ") != strings.Repeat("█", fill) || math.Abs(float64(fill)/float64(width)-float64(pct)/100) > 1/float64(width)+1e-6 {
				c.Fail("wrong bar: %s", what)
			}
			if left := size - min(size, down); !holds(m[3], down, down) || !holds(m[4], left, left) {
				c.Fail("wrong amounts: %s", what)
			}
			sp := rate.FindStringSubmatch(m[5])
			if sp == nil {
				c.Fail("no speed: %s", what)
			}
			v, _ := strconv.ParseFloat(sp[1], 64)
			if want := float64(down) / (1 << 20) / took; math.Abs(v-want) > 0.0500001+want*1e-6 {
				c.Fail("wrong speed: %s, it is %.3f MB/s", what, want)
			}
			if m[6] != strconv.Itoa(peers) || m[7] != strconv.Itoa(trackers) {
				c.Fail("wrong counts: %s", what)
			}
			c.Eval(1)
			c.Count("lines of given totals compared", 1)
			c.Distinct(text)
		}
	})
}
