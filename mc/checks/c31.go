package checks

import (
	"context"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vtime"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// C31: streaming search and the incremental index.

// streamSets: every subset of rows, every batch size and option.
func streamSets(w *vk.W) {
	q := []float32{1, 0.2}
	for mi, m := range metrics30 {
		for mask := 0; mask < 1<<len(vecs30); mask++ {
			if w.Stop() {
				return
			}
			n := 0
			for i := range vecs30 {
				n += mask >> i & 1
			}
			if n > w.Pick(4, 7) && mask != 1<<len(vecs30)-1 {
				continue
			}
			m, mask := m, mask
			w.Case(fmt.Sprintf("stream|%s|%02x", m.name, mask), func(c *vk.C) {
				e := newEnv(c, cfgT{"plain" + m.name, 2, func(cf *core.Config) { cf.SimilarityFn = m.f }})
				opCreateColl("c_1", 2).do(e)
				for i, v := range vecs30 {
					if mask>>i&1 == 1 {
						r := row{id: fmt.Sprintf("v%d", i), vec: v, content: texts30[i], meta: map[string]string{"p": fmt.Sprint(i % 2)}}
						if i%3 == 1 {
							r.coll = "c_1"
						}
						opUpsert("", r).do(e)
					}
				}
				c.State(e.m.String())
				for _, bs := range []int{0, 1, 2, 3, 50} {
					for _, so := range []core.SearchOptions{{}, {Collection: "c_1"}, {Filter: map[string]string{"p": "1"}}, {Threshold: 0.3}, {TopK: 2}} {
						for _, early := range []float64{-9, 0.2, 0.9} {
							if early > -9 && so.TopK == 0 {
								continue
							}
							judgeStream(e, m, q, core.StreamingOptions{SearchOptions: so, BatchSize: bs, MaxLatency: time.Minute, EarlyTerminate: early > -9, QualityThreshold: early})
						}
					}
				}
				if mi == 0 {
					judgeMerged(e, m)
				}
			})
		}
	}
}

// streamMany: more rows than any batch, and thresholds that are a row's score.
func streamMany(w *vk.W) {
	for _, m := range metrics30 {
		for _, n := range []int{9, 130, 340} {
			m, n := m, n
			w.Case(fmt.Sprintf("many|%s|%d", m.name, n), func(c *vk.C) {
				e := newEnv(c, cfgT{"plain" + m.name, 2, func(cf *core.Config) { cf.SimilarityFn = m.f }})
				var l []row
				for i := 0; i < n; i++ {
					a := 0.013 + 6.1*float64(i*37%n)/float64(n)
					l = append(l, row{id: fmt.Sprintf("m%d", i), vec: []float32{float32(math.Cos(a)), float32(1.5 * math.Sin(a))}, content: fmt.Sprint(i), meta: map[string]string{"p": fmt.Sprint(i % 2)}})
				}
				opBatch("rows", l...).do(e)
				q := []float32{0.9, 0.4}
				for _, bs := range []int{0, 1, 7, 13, 100, 128, 500} {
					for _, so := range []core.SearchOptions{{}, {Filter: map[string]string{"p": "1"}}, {Threshold: 0.31}} {
						judgeStream(e, m, q, core.StreamingOptions{SearchOptions: so, BatchSize: bs, MaxLatency: time.Minute})
					}
				}
				read := func(o core.StreamingOptions) map[string]float64 {
					o.MaxLatency = time.Minute
					ch, err := e.s.StreamSearch(bg, q, o)
					if err != nil {
						c.Failf("error", "StreamSearch: %v", err)
					}
					out := map[string]float64{}
					for r := range ch {
						out[r.ID] = r.Score
					}
					return out
				}
				all := read(core.StreamingOptions{})
				for _, id := range e.m.ids() {
					thr := all[id]
					if thr <= 0 {
						continue
					}
					want := 0
					for _, s := range all {
						if s >= thr {
							want++
						}
					}
					got := read(core.StreamingOptions{SearchOptions: core.SearchOptions{Threshold: thr}})
					if _, ok := got[id]; !ok || len(got) != want {
						c.Failf("threshold", "StreamSearch with the score %v of %s as threshold yields %d rows (%s: %v), %d score as much", thr, id, len(got), id, ok, want)
						return
					}
					// enough rows of the wanted quality stop the search
					if want < n {
						for _, top := range []int{want, want - 1} {
							if top == 0 {
								continue
							}
							got = read(core.StreamingOptions{SearchOptions: core.SearchOptions{TopK: top}, BatchSize: 1, EarlyTerminate: true, QualityThreshold: thr})
							good := 0
							for _, s := range got {
								if s >= thr {
									good++
								}
							}
							if good != top {
								c.Failf("early", "StreamSearch for %d rows scoring %v ends with %d", top, thr, good)
								return
							}
						}
						got = read(core.StreamingOptions{SearchOptions: core.SearchOptions{TopK: want + 1}, BatchSize: 1, EarlyTerminate: true, QualityThreshold: thr})
						if len(got) != n {
							c.Failf("early", "StreamSearch for %d rows scoring %v, of which there are %d, ends after %d of %d rows", want+1, thr, want, len(got), n)
							return
						}
					}
				}
				var qs [][]float32
				for i := 0; i < 11; i++ {
					qs = append(qs, []float32{float32(math.Cos(float64(i))), float32(math.Sin(float64(i)))})
				}
				chs, err := e.s.ParallelStreamSearch(bg, qs, core.StreamingOptions{BatchSize: 50, MaxLatency: time.Minute})
				if err != nil || len(chs) != len(qs) {
					c.Failf("parallel", "ParallelStreamSearch with %d queries: %d streams, %v", len(qs), len(chs), err)
					return
				}
				for i, ch := range chs {
					got := 0
					for r := range ch {
						if math.Abs(r.Score-m.sim(qs[i], e.m.rows[r.ID].vec)) > eps30 {
							c.Failf("parallel", "stream %d scores %s %v for %v", i, r.ID, r.Score, qs[i])
							return
						}
						got++
					}
					if got != n {
						c.Failf("parallel", "stream %d yields %d of %d rows", i, got, n)
						return
					}
				}
			})
		}
	}
}

func judgeStream(e *env, m metricT, q []float32, o core.StreamingOptions) {
	c := e.c
	c.Trans(1)
	what := fmt.Sprintf("StreamSearch(%v, %+v, batch %d, early %v %v) of %s", q, o.SearchOptions, o.BatchSize, o.EarlyTerminate, o.QualityThreshold, e.m)
	want := map[string]float64{}
	good := 0
	for _, id := range e.m.ids() {
		r := e.m.rows[id]
		ok := o.Collection == "" || collOf(r) == o.Collection
		for k, v := range o.Filter {
			ok = ok && r.meta[k] == v
		}
		sc := m.sim(q, r.vec)
		if o.Threshold > 0 && math.Abs(sc-o.Threshold) < eps30 || o.EarlyTerminate && math.Abs(sc-o.QualityThreshold) < eps30 {
			return
		}
		if ok && (o.Threshold <= 0 || sc >= o.Threshold) {
			want[id] = sc
			if sc >= o.QualityThreshold {
				good++
			}
		}
	}
	var prog []string
	if o.TopK == 0 {
		o.ProgressCallback = func(a, b int) { prog = append(prog, fmt.Sprintf("%d/%d", a, b)) }
	}
	ch, err := e.s.StreamSearch(bg, q, o)
	if err != nil {
		c.Failf("error", "%s: %v", what, err)
		return
	}
	bs := o.BatchSize
	if bs <= 0 {
		bs = 100
	}
	seen := map[string]bool{}
	perBatch := map[int]int{}
	last, lastScore, goodSeen := 0, math.Inf(1), 0
	n := 0
	for g := range ch {
		n++
		sc, ok := want[g.ID]
		r := e.m.rows[g.ID]
		if !ok || seen[g.ID] || math.Abs(g.Score-sc) > eps30 || g.Content != r.content || metaStr(g.Metadata) != metaStr(r.meta) || g.Collection != collOf(r) {
			c.Failf("row", "%s yields %s %.4f (again: %v), want %s", what, g.ID, g.Score, seen[g.ID], scoreStr(want))
			return
		}
		seen[g.ID] = true
		if g.BatchID < last || g.BatchID == last && n > 1 && g.Score > lastScore+eps30 {
			c.Failf("order", "%s yields batch %d score %.4f after batch %d score %.4f", what, g.BatchID, g.Score, last, lastScore)
			return
		}
		last, lastScore = g.BatchID, g.Score
		if perBatch[g.BatchID]++; perBatch[g.BatchID] > bs {
			c.Failf("batch", "%s: batch %d holds more than %d", what, g.BatchID, bs)
			return
		}
		if sc >= o.QualityThreshold {
			goodSeen++
		}
	}
	if len(seen) != len(want) {
		// only enough good results justify stopping
		if !o.EarlyTerminate || goodSeen < o.TopK {
			c.Failf("missed", "%s yields %d of %d results, %d of them good", what, len(seen), len(want), goodSeen)
			return
		}
	}
	if o.EarlyTerminate && o.TopK > 0 && goodSeen > o.TopK {
		c.Failf("early", "%s goes on after %d good results", what, o.TopK)
	}
	if o.ProgressCallback != nil && o.Threshold == 0 && !o.EarlyTerminate {
		// rows are counted after the SQL and metadata filters
		var ref []string
		for i := 0; i < len(want); i += bs {
			ref = append(ref, fmt.Sprintf("%d/%d", min(i+bs, len(want)), len(want)))
		}
		if fmt.Sprint(prog) != fmt.Sprint(ref) {
			c.Failf("progress", "%s reports progress %v, want %v", what, prog, ref)
		}
	}
}

// judgeMerged: parallel streams, merged and collected.
func judgeMerged(e *env, m metricT) {
	c := e.c
	qs := [][]float32{{1, 0.2}, {-0.3, 1}, {-1, -1}}
	for n := 1; n <= len(qs); n++ {
		for _, bs := range []int{1, 50} {
			best := map[string]float64{}
			for _, id := range e.m.ids() {
				b := math.Inf(-1)
				for _, q := range qs[:n] {
					b = math.Max(b, m.sim(q, e.m.rows[id].vec))
				}
				best[id] = b
			}
			chs, err := e.s.ParallelStreamSearch(bg, qs[:n], core.StreamingOptions{BatchSize: bs, MaxLatency: time.Minute})
			if err != nil || len(chs) != n {
				c.Failf("error", "ParallelStreamSearch: %d streams, %v", len(chs), err)
				return
			}
			var got []string
			for g := range core.MergeStreamResults(bg, chs...) {
				got = append(got, fmt.Sprintf("%s %.3f", g.ID, g.Score))
			}
			var want []string
			for _, q := range qs[:n] {
				for _, id := range e.m.ids() {
					want = append(want, fmt.Sprintf("%s %.3f", id, m.sim(q, e.m.rows[id].vec)))
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			c.Trans(1)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Failf("merge", "%d merged streams of %s give %v, want %v", n, e.m, got, want)
				return
			}
			for k := 0; k <= 4; k++ {
				chs, _ := e.s.ParallelStreamSearch(bg, qs[:n], core.StreamingOptions{BatchSize: bs, MaxLatency: time.Minute})
				l, err := core.CollectTopKFromStream(bg, core.MergeStreamResults(bg, chs...), k)
				c.Trans(1)
				if err != nil {
					c.Failf("error", "CollectTopKFromStream: %v", err)
					return
				}
				judgeTop(c, fmt.Sprintf("CollectTopKFromStream(%d merged streams of %s, k=%d)", n, e.m, k), l, best, k)
			}
		}
	}
}

// judgeTop: the k best, or any k results above 0.9.
func judgeTop(c *vk.C, what string, l []core.ScoredEmbedding, best map[string]float64, k int) {
	var ref []float64
	for _, v := range best {
		ref = append(ref, v)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(ref)))
	k = max(0, k)
	bad := len(l) != min(k, len(ref))
	ok := k > 0 && len(l) == k && l[k-1].Score > 0.9 // may stop early
	seen := map[string]bool{}
	for i, g := range l {
		if bad || seen[g.ID] {
			bad = true
			break
		}
		seen[g.ID] = true
		b, has := best[g.ID]
		bad = !has || g.Score > b+eps30 || i > 0 && g.Score > l[i-1].Score
		if !ok {
			bad = bad || math.Abs(g.Score-b) > eps30 || math.Abs(g.Score-ref[i]) > eps30
		}
	}
	if bad {
		c.Failf("topk", "%s = %s, want the %d best of %s", what, resStr(l), k, scoreStr(best))
	}
}

// collectSeqs: every short stream of results.
func collectSeqs(w *vk.W) {
	ids := []string{"a", "b", "c"}
	scores := []float64{-0.5, 0.2, 0.6, 0.95}
	depth := w.Pick(4, 5)
	total := pow12(depth)
	per := 144
	for off := 0; off < total; off += per {
		if w.Stop() {
			return
		}
		off := off
		w.Case(fmt.Sprintf("collect|%d", off), func(c *vk.C) {
			for x := off; x < off+per; x++ {
				for n := 0; n <= depth; n++ {
					if n < depth && x >= pow12(n) {
						continue
					}
					var in []core.StreamingResult
					best := map[string]float64{}
					y := x
					for i := 0; i < n; i++ {
						r := core.StreamingResult{}
						r.ID, r.Score = ids[y%3], scores[y/3%4]
						y /= 12
						in = append(in, r)
						if b, ok := best[r.ID]; !ok || r.Score > b {
							best[r.ID] = r.Score
						}
					}
					for k := 0; k <= 3; k++ {
						ch := make(chan core.StreamingResult, n)
						for _, r := range in {
							ch <- r
						}
						close(ch)
						l, err := core.CollectTopKFromStream(bg, ch, k)
						c.Trans(1)
						if err != nil {
							c.Failf("error", "CollectTopKFromStream: %v", err)
							return
						}
						var s []string
						for _, r := range in {
							s = append(s, fmt.Sprintf("%s:%v", r.ID, r.Score))
						}
						judgeTop(c, fmt.Sprintf("CollectTopKFromStream(%v, %d)", s, k), l, best, k)
					}
				}
			}
		})
	}
	w.Case("cancelled", func(c *vk.C) {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		ch := make(chan core.StreamingResult)
		if _, err := core.CollectTopKFromStream(ctx, ch, 2); err == nil {
			c.Failf("cancel", "CollectTopKFromStream with a cancelled context reports no error")
		}
		n := 0
		for range core.MergeStreamResults(ctx, ch) {
			n++
		}
		if n > 0 {
			c.Failf("cancel", "a cancelled merge yields %d results", n)
		}
	})
}

func pow12(n int) int {
	p := 1
	for i := 0; i < n; i++ {
		p *= 12
	}
	return p
}

// streamFaults: a storage failure is reported.
func streamFaults(w *vk.W) {
	for _, op := range []string{"stream", "parallel", "incremental"} {
		op := op
		w.Case("fault|"+op, func(c *vk.C) {
			eachFault(c, 40, func(ft *fault) bool {
				e := newEnv(c, cfgT{"plain", 2, nil})
				opUpsert("", row{id: "a", vec: []float32{1, 0}}).do(e)
				opUpsert("", row{id: "b", vec: []float32{0, 1}}).do(e)
				idx := core.NewIncrementalIndex(e.s)
				ft.arm()
				n, err := 0, error(nil)
				switch op {
				case "stream":
					var ch <-chan core.StreamingResult
					if ch, err = e.s.StreamSearch(bg, []float32{1, 1}, core.StreamingOptions{}); err == nil {
						for range ch {
							n++
						}
					}
				case "parallel":
					var chs []<-chan core.StreamingResult
					if chs, err = e.s.ParallelStreamSearch(bg, [][]float32{{1, 1}}, core.StreamingOptions{}); err == nil {
						for range chs[0] {
							n++
						}
					}
				default:
					var l []core.ScoredEmbedding
					l, err = idx.SearchWithUpdates(bg, []float32{1, 1}, core.SearchOptions{TopK: 5})
					n = len(l)
				}
				vsql.SetHook(nil)
				if err == nil && n != 2 {
					c.Failf("silent", "%s with storage failing at %s yields %d of 2 rows and no error", op, ft.at, n)
				}
				idx.Close()
				e.s.Close()
				e.s = nil
				return ft.fired
			})
		})
	}
}

// incrementalSeqs: every sequence of asynchronous additions, searches, flushes
// and closings.
func incrementalSeqs(w *vk.W) {
	type inc struct {
		e      *env
		idx    *core.IncrementalIndex
		closed bool
	}
	q := []float32{1, 0.2}
	search := func(x *inc, o core.SearchOptions) {
		c := x.e.c
		c.Trans(1)
		got, err := x.idx.SearchWithUpdates(bg, q, o)
		what := fmt.Sprintf("SearchWithUpdates(%+v) of %s", o, x.e.m)
		if err != nil {
			c.Failf("error", "%s: %v", what, err)
			return
		}
		want := map[string]float64{}
		var l []float64
		for _, id := range x.e.m.ids() {
			r := x.e.m.rows[id]
			ok := o.Collection == "" || collOf(r) == o.Collection
			for k, v := range o.Filter {
				if k == "doc_id" {
					ok = ok && r.doc == v
				} else {
					ok = ok && r.meta[k] == v
				}
			}
			sc := refCos(q, r.vec)
			if ok && (o.Threshold <= 0 || sc >= o.Threshold) {
				want[id] = sc
				l = append(l, sc)
			}
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(l)))
		k := o.TopK
		if k <= 0 {
			k = 10
		}
		bad := len(got) != min(k, len(l))
		seen := map[string]bool{}
		for i, g := range got {
			r := x.e.m.rows[g.ID]
			if bad || seen[g.ID] || math.Abs(g.Score-want[g.ID]) > eps30 || math.Abs(g.Score-l[i]) > eps30 || g.Content != r.content || g.Collection != collOf(r) {
				bad = true
				break
			}
			seen[g.ID] = true
		}
		if bad {
			c.Failf("search", "%s returns %s, want %s", what, resStr(got), scoreStr(want))
		}
	}
	add := func(name string, r row, good bool) func(x *inc) {
		return func(x *inc) {
			err := x.idx.AddAsync(toEmb(r))
			if x.closed {
				if err == nil {
					x.e.c.Failf("closed", "AddAsync(%s) is accepted after Close", r.id)
				}
				return
			}
			if err != nil {
				x.e.c.Failf("error", "AddAsync(%s): %v", r.id, err)
				return
			}
			if good {
				x.e.m.put(r)
			}
		}
	}
	ops := []struct {
		name string
		do   func(x *inc)
	}{
		{"+a", add("a", row{id: "a", vec: []float32{1, 0.3}, content: "one", meta: map[string]string{"p": "1"}}, true)},
		{"+a'", add("a", row{id: "a", vec: []float32{-1, 0.3}, content: "two", meta: map[string]string{"p": "0"}}, true)},
		{"+b", add("b", row{id: "b", vec: []float32{0.9, 0.25}, content: "other", coll: "c_1", meta: map[string]string{"p": "1"}}, true)},
		{"+bad", add("z", row{id: "z", vec: []float32{1, 2, 3}}, false)},
		{"tick", func(x *inc) {
			if !x.closed {
				vtime.Fire()
			}
		}},
		{"search", func(x *inc) {
			for _, o := range []core.SearchOptions{{TopK: 1}, {TopK: 5}, {TopK: 3, Collection: "c_1"}, {TopK: 2, Collection: "default"}, {TopK: 3, Filter: map[string]string{"p": "1"}}, {TopK: 3, Threshold: 0.5}, {TopK: 3, Filter: map[string]string{"doc_id": "none"}}, {}} {
				search(x, o)
			}
		}},
		{"delete", func(x *inc) {
			// a deletion after a flush
			if !x.closed {
				vtime.Fire()
			}
			opDelete("a").do(x.e)
		}},
		{"close", func(x *inc) {
			x.idx.Close()
			x.closed = true
		}},
	}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	seqsOf(w, "inc", names, w.Pick(4, 5), func(c *vk.C, seq []int) {
		vtime.Manual(true)
		defer vtime.Manual(false)
		x := &inc{e: newEnv(c, cfgT{"plain", 2, nil})}
		opCreateColl("c_1", 2).do(x.e)
		opUpsert("", row{id: "s", vec: []float32{0.7, 0.7}, content: "stored"}).do(x.e)
		x.idx = core.NewIncrementalIndex(x.e.s)
		for _, o := range seq {
			ops[o].do(x)
		}
		c.State(x.e.m.String())
		if !x.closed {
			ops[5].do(x)
		}
		// Close returns when everything accepted is stored
		x.idx.Close()
		x.closed = true
		x.e.observeRows([]string{"a", "b", "s", "z"})
		ops[0].do(x)
		ops[5].do(x)
	})
	// a full queue refuses instead of losing or blocking
	w.Case("full", func(c *vk.C) {
		vtime.Manual(true)
		defer vtime.Manual(false)
		e := newEnv(c, cfgT{"plain", 2, nil})
		idx := core.NewIncrementalIndex(e.s)
		acc := 0
		for i := 0; i < 1000; i++ {
			r := row{id: fmt.Sprintf("n%04d", i), vec: []float32{1, float32(i)}, content: "x"}
			if idx.AddAsync(toEmb(r)) == nil {
				e.m.put(r)
				acc++
			}
		}
		idx.Close()
		st, err := e.s.Stats(bg)
		if err != nil || int(st.Count) != acc || acc < 100 {
			c.Failf("full", "%d of 1000 additions accepted, %d stored (%v)", acc, st.Count, err)
		}
		for _, id := range e.m.ids() {
			if _, err := e.s.GetByID(bg, id); err != nil {
				c.Failf("full", "accepted addition %s is not stored: %v", id, err)
				return
			}
		}
	})
	w.Case("nil", func(c *vk.C) {
		e := newEnv(c, cfgT{"plain", 2, nil})
		idx := core.NewIncrementalIndex(e.s)
		defer idx.Close()
		if idx.AddAsync(nil) == nil {
			c.Failf("nil", "AddAsync(nil) is accepted")
		}
	})
}

func init() {
	vk.Register(&vk.Check{ID: "C31",
		Rule: "every subset of rows times batch sizes and options: the stream equals the scored rows; 9, 130 and 340 rows in batches of every size, with each row's own score as threshold and as wanted quality; every short stream of results collected; every sequence of asynchronous additions, flushes (ticks under control), searches, deletions and closing of the incremental index against a model; every storage fault",
		Assumptions: []string{
			"the consumer keeps up (a stream skips results a consumer does not take within MaxLatency, by design)",
			"collection may stop early once it holds k results above 0.9, by design",
			"goroutines of streams run freely: their interleavings are not enumerated, their outcome must not depend on them",
		},
		Run: func(w *vk.W) {
			streamFaults(w)
			incrementalSeqs(w)
			collectSeqs(w)
			streamMany(w)
			streamSets(w)
		}})
}
