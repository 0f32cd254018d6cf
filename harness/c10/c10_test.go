package c10

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"

	"verif/internal/mon"
	"verif/internal/ref"
)

func Test(t *testing.T) {
	mon.Main(t, "C10",
		mon.Family{Name: "sequential", Quick: 6000, Thorough: 60000, Fn: sequential},
		mon.Family{Name: "histories", Quick: 10000, Thorough: 100000, Fn: histories},
		mon.Family{Name: "stress", Quick: 192, Thorough: 1920, Fn: stress},
		mon.Family{Name: "grow", Quick: 96, Thorough: 960, Fn: grow},
	)
}

// req is a request by value.
type req struct {
	typ                   util.MessageType
	index, offset, length uint32
}

func value(m *util.PeerMessage) req { return req{m.Type, m.Index(), m.Offset(), m.BlockLength()} }

func (q req) String() string { return fmt.Sprintf("%d/%d+%d", q.index, q.offset, q.length) }

func newReq(r *rand.Rand, small bool) *util.PeerMessage {
	if small { // few values, so that equal requests meet
		return util.CreatePieceMessage(uint32(r.IntN(3)), uint32(r.IntN(2))*128<<10, 128<<10)
	}
	return util.CreatePieceMessage(r.Uint32(), r.Uint32(), r.Uint32())
}

// wire is what the request sends.
func wire(m *util.PeerMessage) string {
	var b strings.Builder
	_, _ = m.Send(&b)
	return b.String()
}

func frame(q req) string { return string(ref.RequestFrame(q.index, q.offset, q.length).Bytes()) }

func sequential(c *mon.Case) {
	r := c.R
	qs := []*torrent.PiecesQueue{torrent.NewPiecesQueue(), torrent.NewPiecesQueue()}
	bags := []map[req]int{{}, {}}
	sizes := []int{0, 0}
	ops := 10 + r.IntN(400)
	bias := 2 + r.IntN(7)
	sig := fmt.Sprint(ops, bias)
	for i := 0; i < ops; i++ {
		k := r.IntN(2)
		q, bag := qs[k], bags[k]
		if r.IntN(10) < bias {
			m := newReq(r, r.IntN(2) == 0)
			v := value(m)
			for n := 1 + r.IntN(8)/7; n > 0; n-- { // the same request may fail twice
				c.Call("report", func() { q.RequestFailed(m) })
				bag[v]++
				sizes[k]++
			}
			continue
		}
		var m *util.PeerMessage
		c.Call("take", func() { m = q.FailedPieceMessage() })
		c.Eval(1)
		if m == nil {
			c.Check(sizes[k] == 0, "queue answers 'nothing to retry' with %d requests waiting", sizes[k])
			continue
		}
		v := value(m)
		c.Check(bag[v] > 0, "queue hands out %s, which is not waiting", v)
		c.Check(wire(m) == frame(v), "request %s sends %x after the queue", v, wire(m))
		bag[v]--
		sizes[k]--
	}
	for k, q := range qs {
		for ; sizes[k] > 0; sizes[k]-- {
			m := q.FailedPieceMessage()
			c.Check(m != nil, "queue answers 'nothing to retry' with %d requests waiting", sizes[k])
			c.Check(bags[k][value(m)] > 0, "queue hands out %s, which is not waiting", value(m))
			bags[k][value(m)]--
		}
		c.Check(q.FailedPieceMessage() == nil, "queue hands out more requests than were reported")
	}
	c.Count("operations", ops)
	c.Distinct(sig, c.Seed)
}

type op struct {
	report bool
	v      req
}

// bag is a multiset of waiting requests, as a sorted string.
var model = porcupine.Model{
	Init: func() any { return "" },
	Step: func(state, in, out any) (bool, any) {
		s := state.(string)
		o := in.(op)
		var items []string
		if s != "" {
			items = strings.Split(s, " ")
		}
		if o.report {
			items = append(items, o.v.String())
			sort.Strings(items)
			return true, strings.Join(items, " ")
		}
		got := out.(*req)
		if got == nil {
			return len(items) == 0, s
		}
		k := got.String()
		for i, it := range items {
			if it == k {
				return true, strings.Join(append(items[:i:i], items[i+1:]...), " ")
			}
		}
		return false, s
	},
	DescribeOperation: func(in, out any) string {
		o := in.(op)
		if o.report {
			return "report " + o.v.String()
		}
		if g := out.(*req); g != nil {
			return "take " + g.String()
		}
		return "take nothing"
	},
}

func histories(c *mon.Case) {
	r := c.R
	q := torrent.NewPiecesQueue()
	workers := 2 + r.IntN(4)
	each := 3 + r.IntN(7)
	small := r.IntN(3) == 0
	var mu sync.Mutex
	var ops []porcupine.Operation
	var start, wg sync.WaitGroup
	start.Add(1)
	var clock atomic.Int64
	for w := 0; w < workers; w++ {
		wr := rand.New(rand.NewPCG(c.Seed, uint64(w)))
		bias := 1 + wr.IntN(9)
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			var mine []porcupine.Operation
			for i := 0; i < each; i++ {
				if wr.IntN(3) == 0 {
					runtime.Gosched()
				}
				o := porcupine.Operation{ClientId: w}
				if wr.IntN(10) < bias {
					m := newReq(wr, small)
					o.Input = op{true, value(m)}
					o.Call = clock.Add(1)
					q.RequestFailed(m)
					o.Return = clock.Add(1)
				} else {
					o.Input = op{}
					o.Call = clock.Add(1)
					m := q.FailedPieceMessage()
					o.Return = clock.Add(1)
					var out *req
					if m != nil {
						v := value(m)
						out = &v
					}
					o.Output = out
				}
				mine = append(mine, o)
			}
			mu.Lock()
			ops = append(ops, mine...)
			mu.Unlock()
		}()
	}
	start.Done()
	wg.Wait()
	// drain, so that lost requests show
	for i := 0; ; i++ {
		o := porcupine.Operation{ClientId: workers, Input: op{}, Call: clock.Add(1)}
		m := q.FailedPieceMessage()
		o.Return = clock.Add(1)
		if m == nil {
			o.Output = (*req)(nil)
			ops = append(ops, o)
			break
		}
		v := value(m)
		o.Output = &v
		ops = append(ops, o)
		c.Check(i < 10*workers*each, "queue never gets empty")
	}
	res := porcupine.CheckOperationsTimeout(model, ops, 20*time.Second)
	c.Eval(1)
	if res == porcupine.Unknown {
		c.Count("histories without verdict", 1)
		return
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var sig strings.Builder
	overlap := 0
	for i, o := range ops {
		fmt.Fprintf(&sig, "%d:%s;", o.ClientId, model.DescribeOperation(o.Input, o.Output))
		if i > 0 && ops[i-1].Return > o.Call {
			overlap++
		}
	}
	if res == porcupine.Illegal {
		for _, o := range ops {
			c.Logf("client %d [%d,%d] %s", o.ClientId, o.Call, o.Return, model.DescribeOperation(o.Input, o.Output))
		}
		c.Fail("no order of these %d operations explains what the queue answered", len(ops))
	}
	c.Count("linearizable histories", 1)
	c.Count("overlapping operations", overlap)
	c.Distinct(sig.String())
	if overlap > 2 {
		c.Sample("%s", sig.String())
	}
}

// stress checks conservation over many operations.
func stress(c *mon.Case) {
	r := c.R
	q := torrent.NewPiecesQueue()
	reporters, takers := 1+r.IntN(6), 1+r.IntN(6)
	per := 3000
	var reported, begun atomic.Int64
	handed := make([]map[req]int, takers)
	var wg, tw sync.WaitGroup
	var over atomic.Bool
	for w := 0; w < reporters; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				q.RequestFailed(util.CreatePieceMessage(uint32(w), uint32(i), 1+uint32(i%7)))
				reported.Add(1)
				if i%64 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	for w := 0; w < takers; w++ {
		handed[w] = map[req]int{}
		tw.Add(1)
		go func() {
			defer tw.Done()
			for {
				last := over.Load()
				before := reported.Load()
				begun.Add(1)
				m := q.FailedPieceMessage()
				if m != nil {
					handed[w][value(m)]++
					continue
				}
				// takes begun so far are the most that can have been handed out
				if took := begun.Load(); before >= took {
					c.Report("'nothing to retry' although %d requests were reported before and at most %d were handed out", before, took-1)
				}
				begun.Add(-1)
				if last {
					return
				}
				runtime.Gosched()
			}
		}()
	}
	wg.Wait()
	over.Store(true)
	tw.Wait()
	all := map[req]int{}
	n := 0
	for _, h := range handed {
		for v, k := range h {
			all[v] += k
			n += k
		}
	}
	for w := 0; w < reporters; w++ {
		for i := 0; i < per; i++ {
			v := req{util.RequestMessageType, uint32(w), uint32(i), 1 + uint32(i%7)}
			if all[v] != 1 {
				c.Fail("request %s was reported once and handed out %d times", v, all[v])
			}
		}
	}
	c.Check(n == reporters*per, "%d requests were reported, %d handed out", reporters*per, n)
	if c.Violated() {
		return
	}
	c.Eval(1)
	c.Count("requests conserved", n)
	c.Distinct(reporters, takers, c.Seed)
}

// grow lets the queue grow far beyond its initial room and shrink again.
func grow(c *mon.Case) {
	r := c.R
	q := torrent.NewPiecesQueue()
	waiting := map[req]int{}
	n := 0
	for round := 0; round < 6; round++ {
		for k := r.IntN(3000); k > 0; k-- {
			m := newReq(r, false)
			waiting[value(m)]++
			n++
			q.RequestFailed(m)
		}
		for k := r.IntN(3000); k > 0 && n > 0; k-- {
			m := q.FailedPieceMessage()
			c.Check(m != nil, "'nothing to retry' with %d waiting", n)
			c.Check(waiting[value(m)] > 0, "%s is not waiting", value(m))
			waiting[value(m)]--
			n--
		}
	}
	for ; n > 0; n-- {
		m := q.FailedPieceMessage()
		c.Check(m != nil, "'nothing to retry' with %d waiting", n)
		c.Check(waiting[value(m)] > 0, "%s is not waiting", value(m))
		waiting[value(m)]--
	}
	c.Check(q.FailedPieceMessage() == nil, "more requests are handed out than were reported")
	c.Eval(1)
	c.Distinct(c.Seed)
}
