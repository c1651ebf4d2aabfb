package checks

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// searchAPI is one way to search with SearchOptions; with a large TopK it must
// return exactly the rows in scope.
type searchAPI struct {
	name string
	run  func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error)
}

var qAll = []float32{0.7, 0.2}

func collectStream(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
	ch, err := s.StreamSearch(bg, qAll, core.StreamingOptions{SearchOptions: o, BatchSize: 50})
	if err != nil {
		return nil, err
	}
	var out []core.ScoredEmbedding
	for r := range ch {
		out = append(out, r.ScoredEmbedding)
	}
	return out, nil
}

func searchAPIs() []searchAPI {
	dv := func(m core.DiversityMethod) func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
		return func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithDiversity(bg, qAll, core.DiversitySearchOptions{Method: m, Lambda: 0.5, MinDistance: 0.000001, SearchOptions: o})
		}
	}
	l := []searchAPI{
		{"Search", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.Search(bg, qAll, o)
		}},
		{"SearchWithFilter", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithFilter(bg, qAll, o, nil)
		}},
		{"SearchWithFilter+meta", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithFilter(bg, qAll, o, map[string]interface{}{"all": "1"})
		}},
		{"AdvancedFilter", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithAdvancedFilter(bg, qAll, core.AdvancedSearchOptions{SearchOptions: o})
		}},
		{"AdvancedFilter+pre", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithAdvancedFilter(bg, qAll, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: core.NewMetadataFilter().Equal("all", "1").Build()})
		}},
		{"AdvancedFilter+or", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			pre := &core.FilterExpression{Operator: core.FilterOR, Children: []*core.FilterExpression{
				core.NewMetadataFilter().Equal("all", "1").Build(), core.NewMetadataFilter().Equal("all", "2").Build()}}
			return s.SearchWithAdvancedFilter(bg, qAll, core.AdvancedSearchOptions{SearchOptions: o, PreFilter: pre})
		}},
		{"AdvancedFilter+post", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithAdvancedFilter(bg, qAll, core.AdvancedSearchOptions{SearchOptions: o, PostFilter: core.NewMetadataFilter().Equal("all", "1").Build()})
		}},
		{"ACL", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithACL(bg, qAll, []string{"u1", "u2"}, o)
		}},
		{"Hybrid-keyword", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.HybridSearch(bg, nil, "common", core.HybridSearchOptions{SearchOptions: o})
		}},
		{"Hybrid", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.HybridSearch(bg, qAll, "common", core.HybridSearchOptions{SearchOptions: o})
		}},
		{"Range", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.RangeSearch(bg, qAll, 100, o)
		}},
		{"BatchRange", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			l, err := s.BatchRangeSearch(bg, [][]float32{{0, 1}, qAll}, 100, o)
			if err != nil {
				return nil, err
			}
			return l[1], nil
		}},
		{"Facets", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			l, _, err := s.SearchWithFacets(bg, qAll, core.FacetedSearchOptions{SearchOptions: o})
			return l, err
		}},
		{"Facets+in", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			l, _, err := s.SearchWithFacets(bg, qAll, core.FacetedSearchOptions{SearchOptions: o, Facets: map[string]core.FacetFilter{"all": {Type: core.FilterTypeIn, Values: []interface{}{"1", "2"}}}})
			return l, err
		}},
		{"Facets+or", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			l, _, err := s.SearchWithFacets(bg, qAll, core.FacetedSearchOptions{SearchOptions: o, Facets: map[string]core.FacetFilter{"all": {Type: core.FilterTypeNested, Operator: core.OperatorOR, Nested: []core.FacetFilter{
				{Type: core.FilterTypeEquals, Values: []interface{}{"1"}}, {Type: core.FilterTypeEquals, Values: []interface{}{"2"}}}}}})
			return l, err
		}},
		{"Stream", collectStream},
		{"ParallelStream", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			chs, err := s.ParallelStreamSearch(bg, [][]float32{qAll, {0, 1}}, core.StreamingOptions{SearchOptions: o, BatchSize: 50})
			if err != nil {
				return nil, err
			}
			var out []core.ScoredEmbedding
			seen := map[string]bool{}
			for r := range core.MergeStreamResults(context.Background(), chs...) {
				if !seen[r.ID] {
					seen[r.ID] = true
					out = append(out, r.ScoredEmbedding)
				}
			}
			return out, nil
		}},
		{"MMR", dv(core.DiversityMMR)},
		{"DivDistance", dv(core.DiversityDistance)},
		{"DivRandom", dv(core.DiversityRandom)},
		{"DPP", dv(core.DiversityDPP)},
		{"Negatives", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: [][]float32{qAll}, NegativeVectors: [][]float32{{-1, 0}}, NegativeWeight: 0.3, SearchOptions: o})
		}},
		{"Recommend", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.RecommendSimilar(bg, []string{"a"}, []string{"b"}, o)
		}},
		{"Anomalies", func(s *core.SQLiteStore, o core.SearchOptions) ([]core.ScoredEmbedding, error) {
			return s.FindAnomalies(bg, o)
		}},
	}
	return l
}

// observeScopes runs every search API in every scope.
func (e *env) observeScopes(colls []string, filters []map[string]string) {
	for _, coll := range colls {
		for _, f := range filters {
			var want []string
			for id := range e.m.eligible([]float32{0, 0}, func(a, b []float32) float64 { return 0 }, coll, f, 0, nil) {
				want = append(want, id)
			}
			sort.Strings(want)
			for _, a := range searchAPIs() {
				var ff map[string]string
				if f != nil {
					ff = cloneMeta(f)
				}
				got, err := a.run(e.s, core.SearchOptions{TopK: 50, Collection: coll, Filter: ff})
				what := fmt.Sprintf("%s(collection=%q filter=%v)", a.name, coll, f)
				if err != nil {
					e.c.Failf("err:"+a.name, "%s: %v", what, err)
				}
				e.c.Count("queries", 1)
				var ids []string
				for _, g := range got {
					ids = append(ids, g.ID)
					if r, ok := e.m.rows[g.ID]; ok {
						if d := diffEmb(&g.Embedding, r, true, false); d != "" {
							e.c.Failf("stale:"+a.name, "%s: %s: %s", what, g.ID, d)
						}
					}
				}
				sort.Strings(ids)
				if !sameStrs(ids, want) {
					sig := "missed:"
					for _, id := range ids {
						i := sort.SearchStrings(want, id)
						if i == len(want) || want[i] != id {
							sig = "leak:"
						}
					}
					e.c.Failf(sig+a.name, "%s returns %v, the rows in scope are %v (store: %s)", what, ids, want, e.m)
				}
				if strings.Contains(a.name, "Stream") || strings.Contains(a.name, "Range") { // TopK is no limit there
					continue
				}
				// a short page holds rows of the scope only, and as many as asked for
				got, err = a.run(e.s, core.SearchOptions{TopK: 1, Collection: coll, Filter: ff})
				if err != nil {
					e.c.Failf("err:"+a.name, "%s k=1: %v", what, err)
				}
				if len(got) != min(1, len(want)) && a.name != "DPP" { // DPP leaves out rows without gain
					e.c.Failf("missed:"+a.name, "%s k=1 returns %d rows, the rows in scope are %v (store: %s)", what, len(got), want, e.m)
				}
				if len(got) > 0 && !has(want, got[0].ID) {
					e.c.Failf("leak:"+a.name, "%s k=1 returns %s, the rows in scope are %v (store: %s)", what, got[0].ID, want, e.m)
				}
			}
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C06", Rule: "every placement of four rows into three collections (or nowhere), per index configuration, followed by each collection-level operation; after each step every search entry point runs in every collection scope with and without a metadata and a document filter, and must return exactly the rows in scope; statistics and aggregates likewise",
		Run: func(w *vk.W) {
			hn := func(c *core.Config) { c.HNSW.Enabled = true }
			iv := func(c *core.Config) {
				c.IndexType = core.IndexTypeIVF
				c.IVF.Enabled = true
				c.IVF.NCentroids = 2
				c.IVF.NProbe = 2
			}
			ids := []string{"a", "b", "c", "d"}
			vecs := [][]float32{sv["p"], sv["q"], sv["r"], sv["s"]}
			places := []string{"-", "", "c_1", "C_1"}
			colls := []string{"", "default", "c_1", "C_1", "nope", "cx1", "c_1 ", "c_1' OR '1'='1"}
			filters := []map[string]string{nil, {"odd": "1"}, {"doc_id": "d_1"}, {"odd": "1", "doc_id": "d_1"}, {"missing": "x"}}
			after := []op{
				{"none", func(e *env) {}},
				opDropColl("c_1"),
				{"recreate", func(e *env) { opDropColl("c_1").do(e); opCreateColl("c_1", 2).do(e) }},
				{"move(a->c2)", func(e *env) {
					opUpsert("", row{id: "a", coll: "C_1", vec: sv["t"], content: "moved common", meta: map[string]string{"all": "1", "odd": "1"}, doc: "d_1"}).do(e)
				}},
				{"batchmove(b->default,c->c1)", func(e *env) {
					opBatch("", row{id: "b", vec: sv["u"], content: "moved common", meta: map[string]string{"all": "2"}, doc: "d_1"}, row{id: "c", coll: "c_1", vec: sv["t"], content: "common", meta: map[string]string{"all": "1"}}).do(e)
				}},
				{"dropdoc", func(e *env) { opDropDoc("d_1").do(e) }},
				opReopen,
			}
			n := 0
			for _, ct := range []cfgT{{"plain", 2, nil}, {"hnsw", 2, hn}, {"ivf", 2, iv}} {
				for k := 0; k < 256; k++ {
					for ai, ao := range after {
						n++
						if !w.Thorough() && ct.name != "plain" && (k+ai)%4 != 0 {
							continue // quick: a quarter of the placements for the indexed stores
						}
						k, ct, ao := k, ct, ao
						pl := make([]string, 4)
						for i, x := 0, k; i < 4; i++ {
							pl[i] = places[x%4]
							x /= 4
						}
						w.Case(fmt.Sprintf("%s|%s|%s", ct.name, strings.Join(pl, ","), ao.name), func(c *vk.C) {
							c.Defer(coins(1))
							e := newEnv(c, ct)
							opCreateColl("c_1", 2).do(e)
							opCreateColl("C_1", 2).do(e)
							opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
							for i, p := range pl {
								if p == "-" {
									continue
								}
								r := row{id: ids[i], coll: p, vec: vecs[i], content: "common w" + ids[i], meta: map[string]string{"all": fmt.Sprint(1 + i/2)}}
								if i%2 == 1 {
									r.meta["odd"] = "1"
								}
								if i >= 2 {
									r.doc = "d_1"
								}
								r.meta["all"] = "1"
								opUpsert("", r).do(e)
							}
							if ct.name == "ivf" {
								trainIVF(2).do(e)
							}
							ao.do(e)
							c.Trans(1)
							c.State(e.m.String())
							// rows whose "all" is 2 would be outside the +meta scopes
							if ao.name == "batchmove(b->default,c->c1)" {
								r := e.m.rows["b"]
								r.meta = map[string]string{"all": "1"}
								opUpsert("", r).do(e)
							}
							e.observeScopes(colls, filters)
							e.observeRows(ids)
							for _, col := range colls {
								resp, err := e.s.Aggregate(bg, core.AggregationRequest{Type: core.AggregationCount, Field: "all", Collection: col})
								if err != nil {
									c.Failf("agg", "Aggregate(count, %q): %v", col, err)
								}
								wantN := len(e.m.eligible([]float32{0, 0}, refCos, col, nil, 0, nil))
								gotN := 0
								for _, r := range resp.Results {
									gotN += r.Count
								}
								if gotN != wantN {
									c.Failf("agg", "Aggregate(count, %q) counts %d, the collection holds %d", col, gotN, wantN)
								}
							}
						})
					}
				}
			}
		}})
}
