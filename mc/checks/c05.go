package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.FieldsFunc(strings.ToLower(s), func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r > 127)
	}) {
		m[w] = true
	}
	return m
}

func hasWords(content, query string) bool {
	w := words(content)
	for q := range words(query) {
		if !w[q] {
			return false
		}
	}
	return true
}

// observeKeyword compares keyword and hybrid search with the live rows.
func (e *env) observeKeyword(vecs [][]float32) {
	c, m := e.c, e.m
	for _, q := range []string{"red", "apple", "red apple", "pear", "Green", "zebra"} {
		for _, coll := range []string{"", "c_1"} {
			for _, f := range []map[string]string{nil, {"type": "x"}, {"doc_id": "d_1"}} {
				elig := m.eligible([]float32{0, 0}, func(a, b []float32) float64 { return 0 }, coll, f, 0, nil)
				hits := map[string]bool{}
				for id := range elig {
					if hasWords(m.rows[id].content, q) {
						hits[id] = true
					}
				}
				for vi, v := range append([][]float32{nil}, vecs...) {
					for _, topk := range []int{10, 2} {
						o := core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: topk, Collection: coll, Filter: f}}
						got, err := e.s.HybridSearch(bg, v, q, o)
						what := fmt.Sprintf("HybridSearch(vec%d %q k=%d coll=%q filter=%v)", vi, q, topk, coll, f)
						if err != nil {
							c.Failf("err", "%s: %v", what, err)
						}
						c.Count("queries", 1)
						// reference: vector ranks, keyword ranks unknown but a permutation of 1..n
						vr := map[string]int{}
						if v != nil {
							sc := m.eligible(v, refCos, coll, f, 0, nil)
							var ids []string
							for id := range sc {
								ids = append(ids, id)
							}
							sort.Slice(ids, func(i, j int) bool { return sc[ids[i]] > sc[ids[j]] })
							if len(ids) > topk {
								ids = ids[:topk]
							}
							for i, id := range ids {
								vr[id] = i + 1
							}
						}
						all := map[string]bool{}
						for id := range vr {
							all[id] = true
						}
						for id := range hits {
							all[id] = true
						}
						n := len(all)
						if n > topk {
							n = topk
						}
						seen, ranks := map[string]bool{}, map[int]string{}
						last := math.Inf(1)
						for _, g := range got {
							if seen[g.ID] {
								c.Failf("dup", "%s: %s twice", what, g.ID)
							}
							seen[g.ID] = true
							if !all[g.ID] {
								c.Failf("foreign", "%s: returned %s (%v), keyword hits are %v, vector hits %v", what, g.ID, resStr(got), keys(hits), vr)
							}
							if d := diffEmb(&g.Embedding, m.rows[g.ID], true, false); d != "" {
								c.Failf("stale", "%s: %s: %s", what, g.ID, d)
							}
							if g.Score > last+1e-12 {
								c.Failf("order", "%s: not sorted: %s", what, resStr(got))
							}
							last = g.Score
							rest := g.Score
							if r, ok := vr[g.ID]; ok {
								rest -= 1 / (60 + float64(r))
							}
							if !hits[g.ID] {
								if math.Abs(rest) > 1e-9 {
									c.Failf("score", "%s: %s has score %v, want its vector rank part only", what, g.ID, g.Score)
								}
								continue
							}
							r := int(math.Round(1/rest - 60))
							if rest < 1e-6 || math.Abs(rest-1/(60+float64(r))) > 1e-9 || r < 1 || r > len(hits) || ranks[r] != "" {
								c.Failf("score", "%s: %s has score %v, which is no rank fusion of vector rank %v with a keyword rank of 1..%d (%s)", what, g.ID, g.Score, vr[g.ID], len(hits), resStr(got))
							}
							ranks[r] = g.ID
						}
						if len(got) != n {
							c.Failf("missed", "%s: %d results %s, want %d of keyword hits %v and vector hits %v", what, len(got), resStr(got), n, keys(hits), vr)
						}
					}
				}
			}
		}
	}
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func keywordOps() []op {
	x := map[string]string{"type": "x"}
	return []op{
		opUpsert("U(a,red apple)", row{id: "a", vec: sv["p"], content: "a Red apple.", meta: x}),
		opUpsert("U(a,green pear)", row{id: "a", coll: "c_1", vec: sv["r"], content: "green pear", doc: "d_1"}),
		opUpsert("U(b,red pear)", row{id: "b", vec: sv["q"], content: "red,pear red", doc: "d_1", meta: x}),
		opUpsert("U(b,-)", row{id: "b", vec: sv["s"], content: ""}),
		opBatch("UB(a,b)", row{id: "a", vec: sv["u"], content: "apple apple red", coll: "c_1"}, row{id: "b", vec: sv["t"], content: "Green apple"}),
		opBatch("UB(c,c)", row{id: "c", vec: sv["s"], content: "zebra"}, row{id: "c", vec: []float32{-0.5, 0.8}, content: "pear", coll: "c_1", meta: x}),
		opDelete("a"),
		opDeleteBatch("b", "c"),
		opDeleteByDoc("d_1"),
		opDeleteFilter("type=x", func() *core.MetadataFilter { return core.NewMetadataFilter().Equal("type", "x") }, func(r row) bool { return r.meta["type"] == "x" }),
		opClear,
		opDropColl("c_1"),
		opDropDoc("d_1"),
		opReopen,
		{"MV(e)", func(e *env) {
			if err := e.s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "e", Content: "red zebra", Vectors: map[string][]float32{"f": {0.31, 0.77}}}); err != nil {
				e.c.Failf("mv", "UpsertMultiVector: %v", err)
			}
			e.m.put(row{id: "e___f", vec: []float32{0.31, 0.77}, content: "red zebra", meta: map[string]string{"_entity_id": "e", "_vector_field": "f"}})
		}},
		{"LOAD(c)", func(e *env) {
			in := `{"id":"c","vector":[0.6,-0.75],"content":"apple zebra"}`
			if _, err := e.s.Load(bg, strings.NewReader(in+"\n"), core.LoadOptions{Format: core.DumpFormatJSONL, Replace: true, Upsert: true}); err != nil {
				e.c.Failf("load", "Load: %v", err)
			}
			e.m.put(row{id: "c", vec: []float32{0.6, -0.75}, content: "apple zebra"})
		}},
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C05", Rule: "every sequence of writes, deletes, imports and restarts up to the depth; after each prefix every keyword and hybrid query of the grid is compared with the words of the live rows and with rank fusion of the brute-force vector ranking",
		Run: func(w *vk.W) {
			mk := func(ct cfgT) func(c *vk.C) *env {
				return func(c *vk.C) *env {
					e := newEnv(c, ct)
					opCreateColl("c_1", 2).do(e)
					opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
					return e
				}
			}
			ops := wrapOps(keywordOps(), keepContainers)
			runSeqs(w, "plain", ops, w.Pick(3, 4), mk(cfgT{"plain", 2, nil}), func(e *env) { e.observeKeyword([][]float32{{1, 0.3}}) })
			runSeqs(w, "hnsw", ops, w.Pick(2, 3), mk(cfgT{"hnsw", 2, func(c *core.Config) { c.HNSW.Enabled = true }}), func(e *env) { e.observeKeyword([][]float32{{1, 0.3}, {-0.3, -1}}) })
			// rows of one length that hold the word 1, 2, ... times: the keyword
			// ranking is known, and with it every fused score
			for _, ct := range []cfgT{{"plain", 2, nil}, {"hnsw", 2, func(c *core.Config) { c.HNSW.Enabled = true; c.HNSW.M = 64 }}} {
				for _, n := range []int{5, 12, 40, 110} {
					for _, other := range []int{0, 7} {
						ct, n, other := ct, n, other
						w.Case(fmt.Sprintf("ranked|%s|%d|%d", ct.name, n, other), func(c *vk.C) { rankedKeyword(c, ct, n, other) })
					}
				}
			}
		}})
}

// rankedKeyword stores n rows that hold "apple" 1..n times among n words, and
// some that do not hold it at all, their vectors turned so that the vector
// ranking is another one.
func rankedKeyword(c *vk.C, ct cfgT, n, other int) {
	e := newEnv(c, ct)
	opCreateColl("c_1", 2).do(e)
	kr := map[string]int{} // keyword rank
	var batch []row
	for i := 0; i < n+other; i++ {
		id := fmt.Sprintf("r%03d", i)
		text := strings.Repeat("filler ", n)
		if i < n {
			tf := (i*7)%n + 1
			text = strings.Repeat("apple ", tf) + strings.Repeat("filler ", n-tf)
			kr[id] = n - tf + 1
		}
		a := 0.02 + 2.9*float64(i)/float64(n+other)
		r := row{id: id, vec: []float32{float32(math.Cos(a)), float32(math.Sin(a))}, content: text}
		batch = append(batch, r)
	}
	opBatch("rows", batch...).do(e)
	// noise elsewhere must not change what is found in the default collection
	opUpsert("far", row{id: "far", coll: "c_1", vec: []float32{1, 0}, content: strings.Repeat("apple ", n)}).do(e)
	c.Trans(n + other + 1)
	in := core.SearchOptions{Collection: "default"}
	for _, k := range []float64{0, 0.5, 1, 60, 1000} {
		kk := k
		if k == 0 {
			kk = 60
		}
		for _, topk := range []int{1, 3, 4, 10, 100} {
			for vi, v := range [][]float32{nil, {1, 0.001}, {-0.2, 1}} {
				if v != nil && n > 3*topk {
					continue // only part of the keyword ranking takes part
				}
				o := core.HybridSearchOptions{SearchOptions: in, RRFK: k}
				o.TopK = topk
				want := map[string]float64{}
				if v != nil {
					sc := e.m.eligible(v, refCos, "default", nil, 0, nil)
					ids := make([]string, 0, len(sc))
					for id := range sc {
						ids = append(ids, id)
					}
					sort.Slice(ids, func(i, j int) bool { return sc[ids[i]] > sc[ids[j]] })
					for i, id := range ids {
						if i < topk {
							want[id] += 1 / (kk + float64(i+1))
						}
					}
				}
				for id, r := range kr {
					want[id] += 1 / (kk + float64(r))
				}
				what := fmt.Sprintf("HybridSearch(vec%d, %d rows with the word, top %d, k=%v)", vi, n, topk, k)
				got, err := e.s.HybridSearch(bg, v, "apple", o)
				if err != nil {
					c.Failf("err", "%s: %v", what, err)
				}
				c.Count("queries", 1)
				limit := topk
				if len(want) < limit {
					limit = len(want)
				}
				if len(got) != limit {
					c.Failf("ranked", "%s: %d results, want %d", what, len(got), limit)
				}
				var best []float64
				for _, s := range want {
					best = append(best, s)
				}
				sort.Sort(sort.Reverse(sort.Float64Slice(best)))
				for i, g := range got {
					if s, ok := want[g.ID]; !ok || math.Abs(s-g.Score) > 1e-9 || math.Abs(s-best[i]) > 1e-9 {
						c.Failf("ranked", "%s: result %d is %s with score %v; its fused score is %v and the %d-th best is %v", what, i+1, g.ID, g.Score, want[g.ID], i+1, best[i])
					}
				}
			}
		}
	}
}
