package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vrand"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// ---- reference similarity, written from the definition ----

func refCos(a, b []float32) float64 {
	var d, x, y float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
		x += float64(a[i]) * float64(a[i])
		y += float64(b[i]) * float64(b[i])
	}
	if x == 0 || y == 0 {
		return 0
	}
	return d / (math.Sqrt(x) * math.Sqrt(y))
}

func refDot(a, b []float32) float64 {
	var d float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
	}
	return d
}

func refL2(a, b []float32) float64 {
	var d float64
	for i := range a {
		x := float64(a[i]) - float64(b[i])
		d += x * x
	}
	return math.Sqrt(d)
}

const eps = 1e-5

type want struct {
	score map[string]float64 // eligible rows and their score
	k     int                // 0: no limit
}

// checkTopK verifies that got is exactly the best k of w, ties aside.
func checkTopK(c *vk.C, what string, got []core.ScoredEmbedding, w want, rows map[string]row) {
	k := w.k
	if k <= 0 {
		k = 10
	}
	checkBest(c, what, got, w.score, k, rows)
}

func checkBest(c *vk.C, what string, got []core.ScoredEmbedding, score map[string]float64, k int, rows map[string]row) {
	seen := map[string]bool{}
	last := math.Inf(1)
	minRet := math.Inf(1)
	for i, g := range got {
		if seen[g.ID] {
			c.Failf("dup", "%s: %s returned twice: %s", what, g.ID, resStr(got))
		}
		seen[g.ID] = true
		s, ok := score[g.ID]
		if !ok {
			c.Failf("foreign", "%s: returned %s, which is deleted or does not satisfy the query (%s, eligible %s)", what, g.ID, resStr(got), scoreStr(score))
		}
		if math.Abs(s-g.Score) > eps*(1+math.Abs(s)) {
			c.Failf("score", "%s: %s has score %v, want %v", what, g.ID, g.Score, s)
		}
		if g.Score > last {
			c.Failf("order", "%s: result %d out of order: %s", what, i, resStr(got))
		}
		last = g.Score
		minRet = math.Min(minRet, s)
		if rows != nil {
			if r, ok := rows[g.ID]; ok {
				if d := diffEmb(&g.Embedding, r, true, false); d != "" {
					c.Failf("stale", "%s: %s: %s", what, g.ID, d)
				}
			}
		}
	}
	n := len(score)
	if n > k {
		n = k
	}
	if len(got) != n {
		c.Failf("count", "%s: %d results %s, want %d of %s", what, len(got), resStr(got), n, scoreStr(score))
	}
	for id, s := range score {
		if !seen[id] && s > minRet+eps {
			c.Failf("missed", "%s: %s (score %.4f) left out of %s", what, id, s, resStr(got))
		}
	}
}

func resStr(got []core.ScoredEmbedding) string {
	s := "["
	for i, g := range got {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%s:%.4f", g.ID, g.Score)
	}
	return s + "]"
}

func scoreStr(m map[string]float64) string {
	var ids []string
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return m[ids[i]] > m[ids[j]] || (m[ids[i]] == m[ids[j]] && ids[i] < ids[j]) })
	s := "["
	for i, id := range ids {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%s:%.4f", id, m[id])
	}
	return s + "]"
}

// eligible scores the rows a query may return. Rows whose score is within eps
// of the threshold are reported in band and may go either way.
func (m *model) eligible(q []float32, sim func(a, b []float32) float64, coll string, filter map[string]string, thr float64, pred func(row) bool) map[string]float64 {
	out := map[string]float64{}
	for id, r := range m.rows {
		if coll != "" && r.coll != coll {
			continue
		}
		ok := true
		for k, v := range filter {
			if k == "doc_id" {
				ok = ok && r.doc == v
			} else {
				mv, has := r.meta[k]
				ok = ok && has && mv == v
			}
		}
		if !ok || (pred != nil && !pred(r)) {
			continue
		}
		s := sim(q, r.vec)
		if thr > 0 && s < thr {
			continue
		}
		out[id] = s
	}
	return out
}

// vectors chosen so that no two score alike for the queries used and no score
// is near a threshold
var (
	sv = map[string][]float32{
		"p": {1, 0.1}, "q": {0.6, 0.7}, "r": {-0.3, 1}, "s": {-1, -0.2}, "t": {0.9, -0.5}, "u": {0.2, -0.9},
	}
	queries = [][]float32{{1, 0}, {-0.2, 1}, {-0.7, -0.7}}
)

func (e *env) observeSearch(qs [][]float32, sim func(a, b []float32) float64, ks []int) {
	for qi, q := range qs {
		for _, k := range ks {
			for _, coll := range []string{"", "c_1"} {
				for fi, f := range []map[string]string{nil, {"type": "x"}, {"doc_id": "d_1"}} {
					for _, thr := range []float64{0, 0.31} {
						if fi > 0 && thr > 0 {
							continue
						}
						o := core.SearchOptions{Collection: coll, TopK: k, Filter: f, Threshold: thr}
						what := fmt.Sprintf("Search(q%d k=%d coll=%q filter=%v thr=%v)", qi, k, coll, f, thr)
						got, err := e.s.Search(bg, append([]float32(nil), q...), o)
						if err != nil {
							e.c.Failf("err", "%s: %v", what, err)
						}
						checkTopK(e.c, what, got, want{e.m.eligible(q, sim, coll, f, thr, nil), k}, e.m.rows)
						e.c.Outcome(resStr(got))
						e.c.Count("queries", 1)
					}
				}
			}
		}
	}
}

func searchOps() []op {
	up := func(id, vec, coll, doc string, ty string) op {
		r := row{id: id, coll: coll, vec: sv[vec], content: "c " + vec, doc: doc}
		if ty != "" {
			r.meta = map[string]string{"type": ty}
		}
		return opUpsert(fmt.Sprintf("U(%s=%s,%s,%s,%s)", id, vec, coll, doc, ty), r)
	}
	return []op{
		up("a", "p", "", "", "x"),
		up("a", "r", "c_1", "d_1", ""),
		up("b", "q", "c_1", "", "x"),
		up("b", "s", "", "", ""),
		up("c", "t", "", "d_1", "x"),
		opBatch("UB(a=u,d=q)", row{id: "a", vec: sv["u"], coll: "c_1", content: "bu", doc: "d_1", meta: map[string]string{"type": "x"}}, row{id: "d", vec: sv["q"], content: "bq"}),
		opBatch("UB(c=s,c=r)", row{id: "c", vec: sv["s"], content: "s_1"}, row{id: "c", vec: sv["r"], content: "S_1", coll: "c_1"}),
		opDelete("a"),
		opDelete("b"),
		opDeleteBatch("a", "c"),
		opDeleteByDoc("d_1"),
		opClearDocs("d_1"),
		opDeleteFilter("type=x", func() *core.MetadataFilter { return core.NewMetadataFilter().Equal("type", "x") }, func(r row) bool { return r.meta["type"] == "x" }),
		opClear,
		opDropColl("c_1"),
		opDropDoc("d_1"),
	}
}

// recreate keeps the alphabet small: operations that drop a container are
// followed by its recreation.
func keepContainers(e *env) {
	if _, ok := e.m.colls["c_1"]; !ok {
		opCreateColl("c_1", 2).do(e)
	}
	if _, ok := e.m.docs["d_1"]; !ok {
		opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
	}
}

func wrapOps(ops []op, after func(e *env)) []op {
	out := make([]op, len(ops))
	for i, o := range ops {
		o := o
		out[i] = op{o.name, func(e *env) { o.do(e); after(e) }}
	}
	return out
}

func trainIVF(n int) op {
	return op{fmt.Sprintf("TRAIN(%d)", n), func(e *env) {
		if len(e.m.rows) < n {
			return // refused for lack of data; nothing to check
		}
		if err := e.s.TrainIndex(bg, n); err != nil {
			e.c.Failf("train", "TrainIndex(%d) with %d rows: %v", n, len(e.m.rows), err)
		}
	}}
}

func coins(pattern int) func() {
	switch pattern {
	case 0:
		vrand.SetCoins(nil) // every node on the ground level
	case 1: // rising towers
		vrand.SetCoins([]bool{false, true, false, true, true, false, true, true, true, false, true, true, true, true, false})
	case 2: // alternating
		vrand.SetCoins([]bool{true, true, false, false, true, false, false, true, true, true, false, false})
	case 3: // falling towers
		vrand.SetCoins([]bool{true, true, true, false, true, true, false, true, false, false, true, true, true, false})
	}
	return vrand.Off
}

func init() {
	vk.Register(&vk.Check{ID: "C02", Rule: "every sequence of write operations up to the depth, per index configuration and per scripted level assignment; after each prefix every query of the grid is compared with a brute-force ranking of the live rows",
		Run: func(w *vk.W) {
			seed := []op{
				opBatch("seed", row{id: "x", vec: sv["p"], content: "x", meta: map[string]string{"type": "x"}}, row{id: "y", vec: []float32{0.8, 0.45}, content: "y"}, row{id: "z", vec: []float32{-0.9, 0.35}, content: "z", doc: "d_1"}),
			}
			type conf struct {
				ct    cfgT
				coins int
				ops   []op
				depth int
				seed  bool
				sim   func(a, b []float32) float64
				ks    []int
			}
			hn := func(m int) func(*core.Config) {
				return func(c *core.Config) { c.HNSW.Enabled = true; c.HNSW.M = m }
			}
			ops := wrapOps(searchOps(), keepContainers)
			ivf := append(append([]op{}, ops...), trainIVF(2))
			d := w.Pick(3, 4)
			list := []conf{
				{cfgT{"linear", 2, nil}, -1, ops, d - 1, true, refCos, []int{1, 0}},
				{cfgT{"hnsw", 2, hn(16)}, 0, ops, d, false, refCos, []int{1, 2}},
				{cfgT{"hnsw", 2, hn(16)}, 1, ops, d - 1, true, refCos, []int{1, 2, 0}},
				{cfgT{"hnsw", 2, hn(16)}, 2, ops, d - 1, true, refCos, []int{1, 2, 0}},
				{cfgT{"hnsw4", 2, hn(4)}, 3, ops, d - 1, true, refCos, []int{1, 2, 0}},
				{cfgT{"ivf", 2, func(c *core.Config) {
					c.IndexType = core.IndexTypeIVF
					c.IVF.Enabled = true
					c.IVF.NCentroids = 2
					c.IVF.NProbe = 2
				}}, -1, ivf, d, false, refCos, []int{3}},
				{cfgT{"ivf", 2, func(c *core.Config) {
					c.IndexType = core.IndexTypeIVF
					c.IVF.Enabled = true
					c.IVF.NCentroids = 2
					c.IVF.NProbe = 2
				}}, -1, append([]op{trainIVF(2), trainIVF(3)}, ops...), d, true, refCos, []int{2, 0}},
				{cfgT{"flat", 2, func(c *core.Config) { c.IndexType = core.IndexTypeFlat; c.SimilarityFn = core.DotProduct }}, -1, ops, 2, true, refDot, []int{1, 0}},
				{cfgT{"l2", 2, func(c *core.Config) { c.SimilarityFn = core.EuclideanDist }}, -1, ops, 2, true, func(a, b []float32) float64 { return -refL2(a, b) }, []int{1, 0}},
			}
			// quantized codes only choose the candidates; with twice as many of them as
			// rows the ranking is exact
			quant := func(typ string) func(*core.Config) {
				return func(c *core.Config) {
					hn(16)(c)
					c.Quantization.Enabled = true
					c.Quantization.Type = typ
					c.Quantization.NBits = 8
				}
			}
			qops := append([]op{{"TRAINQ", func(e *env) {
				if err := e.s.TrainQuantizer(bg); err != nil && len(e.m.rows) > 0 {
					e.c.Failf("train", "TrainQuantizer: %v", err)
				}
			}}, opReopen}, ops...)
			list = append(list,
				conf{cfgT{"sq", 2, quant("scalar")}, 1, qops, d - 1, true, refCos, []int{4, 0}},
				conf{cfgT{"bq", 2, quant("binary")}, 0, qops, d - 1, true, refCos, []int{4, 0}},
				conf{cfgT{"sq0", 0, quant("scalar")}, 2, qops, d - 1, false, refCos, []int{4, 0}})
			for li, cf := range list {
				cf := cf
				runSeqs(w, fmt.Sprintf("%d:%s/coins%d/seed%v", li, cf.ct.name, cf.coins, cf.seed), cf.ops, cf.depth, func(c *vk.C) *env {
					if cf.coins >= 0 {
						c.Defer(coins(cf.coins))
					}
					e := newEnv(c, cf.ct)
					if cf.ct.dim == 0 {
						e.m = newModel(2) // every vector here has two components
					}
					opCreateColl("c_1", 2).do(e)
					opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
					if cf.seed {
						for _, o := range seed {
							o.do(e)
						}
						if cf.ct.name == "ivf" {
							trainIVF(2).do(e)
						}
					}
					return e
				}, func(e *env) { e.observeSearch(queries, cf.sim, cf.ks) })
				// a score equal to the threshold is enough: these scores are exact
				w.Case(fmt.Sprintf("threshold/%d:%s", li, cf.ct.name), func(c *vk.C) {
					if cf.coins >= 0 {
						c.Defer(coins(cf.coins))
					}
					e := newEnv(c, cf.ct)
					if cf.ct.dim == 0 {
						e.m = newModel(2)
					}
					opCreateColl("c_1", 2).do(e)
					for i, v := range [][]float32{{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 0}} {
						r := row{id: fmt.Sprintf("e%d", i), vec: v, content: "x", meta: map[string]string{"type": "x"}}
						if i == 4 {
							r.coll = "c_1"
						}
						opUpsert("", r).do(e)
					}
					if cf.ct.name == "ivf" {
						trainIVF(2).do(e)
					}
					for _, q := range [][]float32{{1, 0}, {0, 1}, {-1, 0}} {
						for _, o := range []core.SearchOptions{{TopK: 5, Threshold: 1}, {TopK: 3, Threshold: 1}, {TopK: 5, Threshold: 1, Collection: "c_1"}, {TopK: 5, Threshold: 1, Filter: map[string]string{"type": "x"}}} {
							got, err := e.s.Search(bg, q, o)
							if err != nil {
								c.Failf("err", "Search(%v %+v): %v", q, o, err)
							}
							c.Count("queries", 1)
							checkTopK(c, fmt.Sprintf("Search(%v %+v)", q, o), got, want{e.m.eligible(q, cf.sim, o.Collection, o.Filter, o.Threshold, nil), o.TopK}, e.m.rows)
						}
					}
				})
			}
			// larger result pages
			for _, ct := range []cfgT{{"linear", 2, nil}, {"hnsw", 2, hn(64)}, {"ivf", 2, func(c *core.Config) {
				c.IndexType = core.IndexTypeIVF
				c.IVF.Enabled = true
				c.IVF.NCentroids = 4
				c.IVF.NProbe = 4
			}}} {
				for _, n := range []int{30, 98, 121, 157} {
					ct, n := ct, n
					if ct.name == "linear" {
						continue
					}
					// a database first opened with an index
					w.Case(fmt.Sprintf("first|%s|%d", ct.name, n), func(c *vk.C) {
						c.Defer(coins(1))
						e := newEnv(c, cfgT{"linear", 2, nil})
						var l []row
						for i := 0; i < n; i++ {
							a := 0.01 + 6.2*float64((i*37)%n)/float64(n)
							l = append(l, row{id: fmt.Sprintf("n%d", i), vec: []float32{float32(math.Cos(a)), float32(math.Sin(a))}, content: "x"})
						}
						opBatch("rows", l...).do(e)
						opDelete("n3").do(e)
						e.s.Close()
						ct.mutate(&e.cfg)
						for again := 0; again < 2; again++ {
							e.open()
							for _, r := range l {
								got, err := e.s.Search(bg, r.vec, core.SearchOptions{TopK: 1})
								if err != nil || len(got) != 1 || (got[0].ID == r.id) != (r.id != "n3") {
									c.Failf("self", "after an index was configured (%d reopenings), Search for the vector of %s returns %s %v", again, r.id, resStr(got), err)
								}
							}
							e.observeSearch(queries[:2], refCos, []int{1, 20, 200})
							if again == 0 {
								e.s.Close()
							}
						}
					})
				}
				for _, n := range []int{30, 100, 157} {
					ct, n := ct, n
					w.Case(fmt.Sprintf("pages|%s|%d", ct.name, n), func(c *vk.C) {
						c.Defer(coins(1))
						e := newEnv(c, ct)
						opCreateColl("c_1", 2).do(e)
						var l []row
						for i := 0; i < n; i++ {
							a := 0.01 + 6.2*float64((i*37)%n)/float64(n)
							r := row{id: fmt.Sprintf("n%d", i), vec: []float32{float32(math.Cos(a)), float32(math.Sin(a))}, content: "x", meta: map[string]string{"type": []string{"x", "y", "z"}[i%3]}}
							if i%4 == 0 {
								r.coll = "c_1"
							}
							l = append(l, r)
						}
						opBatch("rows", l[:n/2]...).do(e)
						if ct.name == "ivf" {
							trainIVF(4).do(e)
						}
						for _, r := range l[n/2:] {
							opUpsert("", r).do(e)
						}
						for i := 0; i < n; i += 5 {
							opDelete(fmt.Sprintf("n%d", i)).do(e)
						}
						e.observeSearch(queries, refCos, []int{1, 7, 20, 33, 64, 80, 200})
						// and so after the index has been rebuilt from the rows, which
						// were last written by a store without it
						idx := e.cfg
						e.s.Close()
						e.cfg.IndexType, e.cfg.HNSW.Enabled, e.cfg.IVF.Enabled = core.IndexTypeFlat, false, false
						e.open()
						opUpsert("", row{id: "late", vec: []float32{0.6, -0.8001}, content: "x"}).do(e)
						opDelete("n1").do(e)
						e.s.Close()
						e.cfg = idx
						e.open()
						e.observeSearch(queries[:2], refCos, []int{1, 20, 200})
						for _, r := range append(l, row{id: "late", vec: []float32{0.6, -0.8001}}) {
							if _, ok := e.m.rows[r.id]; !ok {
								continue
							}
							got, err := e.s.Search(bg, r.vec, core.SearchOptions{TopK: 1})
							if err != nil || len(got) != 1 || got[0].ID != r.id {
								c.Failf("self", "after a restart, Search for the vector of %s returns %s %v", r.id, resStr(got), err)
							}
						}
					})
				}
			}
		}})
}
