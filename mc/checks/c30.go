package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// C30: range, diversity, negative-example, anomaly and reranked search.

type metricT struct {
	name string
	f    core.SimilarityFunc
	sim  func(a, b []float32) float64
	dist func(a, b []float32) float64 // nil: not a distance
}

var metrics30 = []metricT{
	{"cos", core.CosineSimilarity, refCos, func(a, b []float32) float64 { return 1 - refCos(a, b) }},
	{"l2", core.EuclideanDist, func(a, b []float32) float64 { return -trueL2(a, b) }, trueL2},
	{"dot", core.DotProduct, refDot, nil},
}

func trueL2(a, b []float32) float64 {
	s := 0.0
	for i := range a {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

const eps30 = 1e-4

var vecs30 = [][]float32{{1, 0.03}, {0.9, 0.1}, {0.6, 0.7}, {0.05, 1.1}, {-0.8, 0.4}, {-1, -0.2}, {0.3, -0.9}, {2, 0.5}}
var texts30 = []string{"alpha beta", "Beta gamma", "gamma", "alpha alpha delta", "", "delta BETA alpha", "betamax", "epsilon gamma beta"}

type set30 struct {
	e    *env
	m    metricT
	rows []row
}

func (s *set30) String() string {
	var l []string
	for _, r := range s.rows {
		l = append(l, fmt.Sprintf("%s%v", r.id, r.vec))
	}
	return s.m.name + "{" + strings.Join(l, " ") + "}"
}

func (s *set30) row(id string) (row, bool) {
	for _, r := range s.rows {
		if r.id == id {
			return r, true
		}
	}
	return row{}, false
}

// genuine: every result is a stored row with its contents and appears once.
func (s *set30) genuine(what string, got []core.ScoredEmbedding) bool {
	seen := map[string]bool{}
	for _, g := range got {
		r, ok := s.row(g.ID)
		if !ok || seen[g.ID] || g.Content != r.content || fmt.Sprint(g.Vector) != fmt.Sprint(r.vec) {
			s.e.c.Failf("row", "%s of %s returns %s %v %q (again: %v)", what, s, g.ID, g.Vector, g.Content, seen[g.ID])
			return false
		}
		seen[g.ID] = true
	}
	return true
}

// ranked: got is the best k rows by score (larger first when desc), with those scores.
func (s *set30) ranked(what string, got []core.ScoredEmbedding, err error, score map[string]float64, k int, desc bool) {
	c := s.e.c
	c.Trans(1)
	if err != nil {
		c.Failf("error", "%s of %s: %v", what, s, err)
		return
	}
	if !s.genuine(what, got) {
		return
	}
	var l []float64
	for _, v := range score {
		l = append(l, v)
	}
	sort.Float64s(l)
	if desc {
		sort.Sort(sort.Reverse(sort.Float64Slice(l)))
	}
	n := len(l)
	if k > 0 && k < n {
		n = k
	}
	if len(got) != n {
		c.Failf("rank", "%s of %s returns %s, want %d of %s", what, s, resStr(got), n, scoreStr(score))
		return
	}
	for i, g := range got {
		w, ok := score[g.ID]
		if !ok || !(math.Abs(g.Score-w) <= eps30) || math.Abs(w-l[i]) > eps30 {
			c.Failf("rank", "%s of %s returns %s, want %s", what, s, resStr(got), scoreStr(score))
			return
		}
	}
}

func (s *set30) ranges() {
	if s.m.dist == nil {
		return
	}
	for _, q := range [][]float32{{1, 0}, {0.3, -0.9}, {-1, 1}} {
		for _, r := range []float32{0.01, 0.2, 0.5, 1, 1.3, 2.5, 10} {
			score := map[string]float64{}
			sure := true
			for _, x := range s.rows {
				d := s.m.dist(q, x.vec)
				if math.Abs(d-float64(r)) < eps30 {
					sure = false
				}
				if d <= float64(r) {
					score[x.id] = d
				}
			}
			if !sure {
				continue
			}
			for _, k := range []int{0, 1, 3} {
				got, err := s.e.s.RangeSearch(bg, q, r, core.SearchOptions{TopK: k})
				s.ranked(fmt.Sprintf("RangeSearch(%v, %v, k=%d)", q, r, k), got, err, score, k, false)
				all, err := s.e.s.BatchRangeSearch(bg, [][]float32{q, {0, 1}, {-0.6, -0.8}, q}, r, core.SearchOptions{TopK: k})
				if err != nil || len(all) != 4 {
					s.e.c.Failf("batch", "BatchRangeSearch: %d lists, %v", len(all), err)
					return
				}
				s.ranked(fmt.Sprintf("BatchRangeSearch(%v, %v, k=%d)", q, r, k), all[0], nil, score, k, false)
				s.ranked(fmt.Sprintf("the last of BatchRangeSearch(.., %v: %v, k=%d)", q, r, k), all[3], nil, score, k, false)
			}
		}
		for _, r := range []float32{0, -1} {
			if _, err := s.e.s.RangeSearch(bg, q, r, core.SearchOptions{}); err == nil {
				s.e.c.Failf("refuse", "RangeSearch accepts the radius %v", r)
			}
		}
	}
}

func (s *set30) negScore(pos, neg [][]float32, w float64) map[string]float64 {
	if w == 0 {
		w = 0.5
	}
	out := map[string]float64{}
	best := func(l [][]float32, v []float32) float64 {
		b := 0.0
		for i, x := range l {
			if y := s.m.sim(x, v); i == 0 || y > b {
				b = y
			}
		}
		return b
	}
	for _, r := range s.rows {
		out[r.id] = best(pos, r.vec) - w*best(neg, r.vec)
	}
	return out
}

func (s *set30) negatives() {
	sets := [][][]float32{nil, {{1, 0}}, {{-0.7, 0.7}}, {{1, 0.2}, {-0.5, -1}}, {{-1, -1}, {0.2, -1}, {0, 1}}}
	for i, p := range sets {
		for j, n := range sets {
			for wi, w := range []float32{0, 0.3, 1, 2} {
				if (i+j+wi)%2 == 1 && wi > 1 {
					continue
				}
				for _, k := range []int{0, 2} {
					got, err := s.e.s.SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: p, NegativeVectors: n, NegativeWeight: w, SearchOptions: core.SearchOptions{TopK: k}})
					s.ranked(fmt.Sprintf("SearchWithNegatives(+%v -%v weight %v, k=%d)", p, n, w, k), got, err, s.negScore(p, n, float64(w)), k, true)
				}
			}
		}
	}
	// examples by id; unknown ids are ignored
	vec := func(ids []string) (l [][]float32) {
		for _, id := range ids {
			if r, ok := s.row(id); ok {
				l = append(l, r.vec)
			}
		}
		return
	}
	idsets := [][]string{nil, {"v0"}, {"v4", "none"}, {"v1", "v6"}}
	for _, p := range idsets {
		for _, n := range idsets {
			got, err := s.e.s.RecommendSimilar(bg, p, n, core.SearchOptions{TopK: 3})
			s.ranked(fmt.Sprintf("RecommendSimilar(%v, %v)", p, n), got, err, s.negScore(vec(p), vec(n), 0.5), 3, true)
		}
	}
}

func (s *set30) anomalies() {
	if s.m.dist == nil {
		return
	}
	score := map[string]float64{}
	for _, r := range s.rows {
		var d []float64
		for _, o := range s.rows {
			if o.id != r.id {
				d = append(d, s.m.dist(r.vec, o.vec))
			}
		}
		sort.Float64s(d)
		d = d[:min(5, len(d))]
		sum := 0.0
		for _, x := range d {
			sum += x
		}
		if len(d) > 0 {
			sum /= float64(len(d))
		}
		score[r.id] = sum
	}
	for _, k := range []int{0, 1, 3, 9} {
		got, err := s.e.s.FindAnomalies(bg, core.SearchOptions{TopK: k})
		s.ranked(fmt.Sprintf("FindAnomalies(k=%d)", k), got, err, score, k, true)
	}
}

// greedyMMR checks that got is a greedy MMR selection from the pool.
func greedyMMR(pool map[string]row, rel map[string]float64, sim func(a, b []float32) float64, lambda float64, got []string, firstByRel bool) string {
	used := map[string]bool{}
	val := func(id string, n int) float64 {
		best := 0.0
		for i := 0; i < n; i++ {
			if x := sim(pool[id].vec, pool[got[i]].vec); i == 0 || x > best {
				best = x
			}
		}
		return lambda*rel[id] - (1-lambda)*best
	}
	for n, id := range got {
		if _, ok := pool[id]; !ok || used[id] {
			return fmt.Sprintf("%s is not a candidate", id)
		}
		v := val(id, n)
		if n == 0 && firstByRel {
			v = rel[id]
		}
		for o := range pool {
			if used[o] || o == id {
				continue
			}
			x := val(o, n)
			if n == 0 && firstByRel {
				x = rel[o]
			}
			if x > v+eps30 {
				return fmt.Sprintf("rank %d holds %s with marginal relevance %.4f although %s has %.4f", n, id, v, o, x)
			}
		}
		used[id] = true
	}
	return ""
}

func (s *set30) diversity() {
	c := s.e.c
	for _, q := range [][]float32{{1, 0.2}, {-0.4, 0.8}} {
		score := map[string]float64{}
		var order []row
		for _, r := range s.rows {
			score[r.id] = s.m.sim(q, r.vec)
			order = append(order, r)
		}
		sort.Slice(order, func(i, j int) bool { return score[order[i].id] > score[order[j].id] })
		for _, k := range []int{1, 2, 3, 0} {
			kk := k
			if k == 0 {
				kk = 10
			}
			pool := map[string]row{}
			n := min(3*kk, len(order))
			tie := n < len(order) && score[order[n-1].id]-score[order[n].id] < eps30
			for _, r := range order[:n] {
				pool[r.id] = r
			}
			if tie {
				continue
			}
			run := func(o core.DiversitySearchOptions) ([]core.ScoredEmbedding, []string, string, bool) {
				o.SearchOptions = core.SearchOptions{TopK: k}
				what := fmt.Sprintf("SearchWithDiversity(%v, %s lambda=%v min=%v, k=%d)", q, o.Method, o.Lambda, o.MinDistance, k)
				got, err := s.e.s.SearchWithDiversity(bg, q, o)
				c.Trans(1)
				if err != nil {
					c.Failf("error", "%s of %s: %v", what, s, err)
					return nil, nil, what, false
				}
				if !s.genuine(what, got) {
					return nil, nil, what, false
				}
				var ids []string
				for _, g := range got {
					ids = append(ids, g.ID)
					if _, ok := pool[g.ID]; !ok || math.Abs(g.Score-score[g.ID]) > eps30 {
						c.Failf("score", "%s of %s returns %s; candidates %s", what, s, resStr(got), scoreStr(score))
						return nil, nil, what, false
					}
				}
				return got, ids, what, true
			}
			want := min(kk, len(pool))
			for _, la := range []float32{0, 0.1, 0.5, 0.8, 1} {
				for _, me := range []core.DiversityMethod{core.DiversityMMR, ""} {
					got, ids, what, ok := run(core.DiversitySearchOptions{Method: me, Lambda: la})
					if !ok {
						return
					}
					if len(ids) != want {
						c.Failf("mmr", "%s of %s returns %d rows, want %d", what, s, len(ids), want)
						return
					}
					l := float64(la)
					if la == 0 {
						l = 0.5
					}
					if msg := greedyMMR(pool, score, s.m.sim, l, ids, true); msg != "" {
						c.Failf("mmr", "%s of %s returns %s: %s", what, s, resStr(got), msg)
						return
					}
				}
			}
			if s.m.dist != nil {
				for _, md := range []float32{0, 0.02, 0.3, 0.9, 1.7} {
					got, ids, what, ok := run(core.DiversitySearchOptions{Method: core.DiversityDistance, MinDistance: md})
					if !ok {
						return
					}
					if md == 0 {
						md = 0.1
					}
					in := map[string]bool{}
					for _, id := range ids {
						in[id] = true
					}
					bad := ""
					for i := range ids {
						if i > 0 && score[ids[i]] > score[ids[i-1]]+eps30 {
							bad = "not in order of relevance"
						}
						for j := 0; j < i; j++ {
							if d := s.m.dist(pool[ids[i]].vec, pool[ids[j]].vec); d < float64(md)-eps30 {
								bad = fmt.Sprintf("%s and %s are %v apart", ids[i], ids[j], d)
							}
						}
					}
					if len(ids) > kk {
						bad = "too many rows"
					}
					for id, r := range pool {
						if in[id] || len(ids) == kk && score[id] <= score[ids[kk-1]]+eps30 {
							continue
						}
						blocked := false
						for _, o := range ids {
							blocked = blocked || score[o] >= score[id]-eps30 && s.m.dist(pool[o].vec, r.vec) < float64(md)+eps30
						}
						if !blocked {
							bad = fmt.Sprintf("%s is left out", id)
						}
					}
					if bad != "" {
						c.Failf("distance", "%s of %s returns %s: %s", what, s, resStr(got), bad)
						return
					}
				}
			}
			got, ids, what, ok := run(core.DiversitySearchOptions{Method: core.DiversityRandom})
			if !ok {
				return
			}
			if len(ids) != want {
				c.Failf("random", "%s of %s returns %d rows, want %d", what, s, len(ids), want)
				return
			}
			for i, id := range ids {
				if i > 0 && score[id] > score[ids[i-1]]+eps30 {
					c.Failf("random", "%s of %s returns %s out of order", what, s, resStr(got))
					return
				}
				if 2*kk < len(order) && score[id] < score[order[2*kk-1].id]-eps30 {
					c.Failf("random", "%s of %s returns %s, not among the %d best", what, s, id, 2*kk)
					return
				}
			}
			got, ids, what, ok = run(core.DiversitySearchOptions{Method: core.DiversityDPP})
			if !ok {
				return
			}
			if len(ids) > want || len(order) > 0 && score[order[0].id] > eps30 && (len(ids) == 0 || score[ids[0]] < score[order[0].id]-eps30) {
				c.Failf("dpp", "%s of %s returns %s; candidates %s", what, s, resStr(got), scoreStr(score))
				return
			}
		}
	}
}

// ---- rerankers ----

type rr30 struct {
	name string
	r    core.Reranker
	// ref gives the expected score of each result; nil: the order is judged by judge
	ref   func(query string, in []core.ScoredEmbedding) []float64
	judge func(in, out []core.ScoredEmbedding) string
}

var errRerank = errors.New("reranker is down")

func lowerFields(s string) []string { return strings.Fields(strings.ToLower(s)) }

func rerankers30(sim metricT) []rr30 {
	var out []rr30
	for _, mm := range [][2]float64{{0, 1}, {2, 5}, {-1, 1}} {
		mm := mm
		out = append(out, rr30{fmt.Sprintf("norm%v", mm), core.NewScoreNormalizationReranker(mm[0], mm[1]), func(q string, in []core.ScoredEmbedding) []float64 {
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, x := range in {
				lo, hi = math.Min(lo, x.Score), math.Max(hi, x.Score)
			}
			var l []float64
			for _, x := range in {
				v := 0.0
				if hi > lo {
					v = (x.Score - lo) / (hi - lo)
				}
				l = append(l, mm[0]+v*(mm[1]-mm[0]))
			}
			return l
		}, nil})
	}
	for _, b := range []float64{0.2, 1} {
		for _, cs := range []bool{false, true} {
			b, cs := b, cs
			k := core.NewKeywordMatchReranker(b)
			k.CaseSensitive = cs
			out = append(out, rr30{fmt.Sprintf("keyword%v%v", b, cs), k, func(q string, in []core.ScoredEmbedding) []float64 {
				var l []float64
				for _, x := range in {
					n := 0
					for _, w := range strings.Fields(q) {
						if cs && strings.Contains(x.Content, w) || !cs && strings.Contains(strings.ToLower(x.Content), strings.ToLower(w)) {
							n++
						}
					}
					f := 1 + float64(n)*b
					if x.Score < 0 {
						f = 1 / f
					}
					l = append(l, x.Score*f)
				}
				return l
			}, nil})
		}
	}
	for _, wt := range [][2]float64{{0.5, 0.5}, {0.2, 0.8}, {1, 0}} {
		wt := wt
		r := core.NewReciprocalRankFusionReranker(60)
		r.VectorWeight, r.TextWeight = wt[0], wt[1]
		out = append(out, rr30{fmt.Sprintf("rrf%v", wt), r, func(q string, in []core.ScoredEmbedding) []float64 {
			ts := make([]float64, len(in))
			idx := make([]int, len(in))
			for i, x := range in {
				idx[i] = i
				qs, cs := lowerFields(q), map[string]bool{}
				for _, w := range lowerFields(x.Content) {
					cs[w] = true
				}
				for _, w := range qs {
					if cs[w] {
						ts[i] += 1 / float64(len(qs))
					}
				}
			}
			sort.SliceStable(idx, func(a, b int) bool { return ts[idx[a]] > ts[idx[b]]+1e-9 })
			l := make([]float64, len(in))
			for rank, i := range idx {
				l[i] = wt[0]/(60+float64(i+1)) + wt[1]/(60+float64(rank+1))
			}
			return l
		}, nil})
	}
	out = append(out, rr30{"custom", core.NewCustomReranker(func(_ context.Context, q string, r core.ScoredEmbedding) float64 {
		return float64(len(r.Content)) - 10*float64(len(q)%3)*r.Score
	}), func(q string, in []core.ScoredEmbedding) []float64 {
		var l []float64
		for _, x := range in {
			l = append(l, float64(len(x.Content))-10*float64(len(q)%3)*x.Score)
		}
		return l
	}, nil})
	for _, la := range []float64{0, 0.3, 0.7, 1} {
		la := la
		out = append(out, rr30{fmt.Sprintf("diversity%v", la), core.NewDiversityReranker(la, sim.f), nil, func(in, got []core.ScoredEmbedding) string {
			if len(in) == 0 {
				return ""
			}
			pool, rel := map[string]row{}, map[string]float64{}
			for _, x := range in {
				pool[x.ID] = row{id: x.ID, vec: x.Vector}
				rel[x.ID] = sim.sim(in[0].Vector, x.Vector)
			}
			var ids []string
			for _, x := range got {
				ids = append(ids, x.ID)
			}
			return greedyMMR(pool, rel, sim.sim, la, ids, false)
		}})
	}
	// combinations of two
	base := append([]rr30(nil), out...)
	for i, a := range base {
		for j, b := range base {
			if a.ref == nil || b.ref == nil || (i+j)%3 != 0 {
				continue
			}
			for _, wt := range [][]float64{{1, 1}, {0.25, 0.75}, {2}} {
				a, b, wt := a, b, wt
				out = append(out, rr30{fmt.Sprintf("hybrid(%s,%s)%v", a.name, b.name, wt), core.NewHybridReranker([]core.Reranker{a.r, b.r}, wt), func(q string, in []core.ScoredEmbedding) []float64 {
					x, y := a.ref(q, in), b.ref(q, in)
					var l []float64
					for k := range in {
						if len(wt) == 1 {
							l = append(l, x[k])
						} else {
							l = append(l, (x[k]*wt[0]+y[k]*wt[1])/(wt[0]+wt[1]))
						}
					}
					return l
				}, nil})
			}
		}
	}
	return out
}

// judgeRerank compares one reranking with its definition.
func judgeRerank(rr rr30, q string, in, got []core.ScoredEmbedding, scoresToo bool) string {
	if len(got) != len(in) {
		return fmt.Sprintf("%d results of %d", len(got), len(in))
	}
	if rr.judge != nil {
		return rr.judge(in, got)
	}
	ref := rr.ref(q, in)
	want := map[string]float64{}
	for i, x := range in {
		want[x.ID] = ref[i]
	}
	l := append([]float64(nil), ref...)
	sort.Sort(sort.Reverse(sort.Float64Slice(l)))
	seen := map[string]bool{}
	for i, g := range got {
		w, ok := want[g.ID]
		if !ok || seen[g.ID] || scoresToo && math.Abs(g.Score-w) > 1e-6 || math.Abs(w-l[i]) > 1e-6 {
			return fmt.Sprintf("rank %d is %s with %v; want the scores %s", i, g.ID, g.Score, scoreStr(want))
		}
		seen[g.ID] = true
	}
	return ""
}

// rerankLists: every reranker on every short list of scored results.
func rerankLists(w *vk.W) {
	scores := []float64{0.9, 0.4, 0, -0.3}
	for mi, m := range metrics30 {
		rrs := rerankers30(m)
		for n := 0; n <= w.Pick(3, 4); n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(vecs30)
			}
			if total > 600 {
				total = 600
			}
			n, mi, m := n, mi, m
			for off := 0; off < total; off += 64 {
				off := off
				w.Case(fmt.Sprintf("lists|%s|%d|%d", m.name, n, off), func(c *vk.C) {
					for k := off; k < min(off+64, total); k++ {
						// which rows: a base-8 number; which scores: all non-increasing lists
						var rec func(in []core.ScoredEmbedding, from int, x int)
						rec = func(in []core.ScoredEmbedding, from, x int) {
							if len(in) == n {
								for _, q := range []string{"beta", "alpha BETA", "gamma delta nothing", ""} {
									for ri, rr := range rrs {
										if n == 3 && (ri+k)%4 != mi%4 && ri > 15 {
											continue
										}
										cp := append([]core.ScoredEmbedding(nil), in...)
										got, err := rr.r.Rerank(bg, q, cp)
										c.Trans(1)
										if err != nil {
											c.Failf("error", "%s: %v", rr.name, err)
											return
										}
										if msg := judgeRerank(rr, q, in, got, true); msg != "" {
											c.Failf("rerank:"+strings.TrimRight(rr.name, "0123456789.,()[] -"), "%s (%s) of %s for %q = %s: %s", rr.name, m.name, resStr(in), q, resStr(got), msg)
											return
										}
									}
								}
								return
							}
							v := (x + 3*len(in)) % len(vecs30)
							for si := from; si < len(scores); si++ {
								e := core.ScoredEmbedding{Score: scores[si]}
								e.ID, e.Vector, e.Content = fmt.Sprintf("e%d", len(in)), vecs30[v], texts30[v]
								rec(append(append([]core.ScoredEmbedding(nil), in...), e), si, x/len(vecs30))
							}
						}
						rec(nil, 0, k)
					}
				})
			}
		}
	}
}

// rerankSearch: reranked search = search, rerank, threshold, limit.
func (s *set30) rerankSearch() {
	c := s.e.c
	q := []float32{0.9, 0.3}
	base, err := s.e.s.Search(bg, q, core.SearchOptions{TopK: 50})
	if err != nil {
		c.Failf("error", "Search: %v", err)
		return
	}
	orig := map[string]float64{}
	for _, b := range base {
		orig[b.ID] = b.Score
	}
	rev := core.RerankerFunc(func(_ context.Context, q string, in []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
		out := make([]core.ScoredEmbedding, len(in))
		for i, x := range in {
			out[len(in)-1-i] = x
			out[len(in)-1-i].Score = 1 - 0.1*float64(len(in)-1-i) + float64(len(q))
		}
		return out, nil
	})
	keep := core.RerankerFunc(func(_ context.Context, q string, in []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
		return in[:len(in)/2], nil
	})
	for name, rr := range map[string]core.Reranker{"none": nil, "reverse": rev, "half": keep, "keyword": core.NewKeywordMatchReranker(0.5)} {
		for _, k := range []int{1, 2, 5, 20} {
			for _, th := range []float64{0, 0.35, 0.95, 4.75} {
				for _, pre := range []bool{false, true} {
					got, err := s.e.s.SearchWithReranker(bg, q, "beta", rr, core.RerankOptions{TopK: k, Threshold: th, PreserveOriginalScore: pre})
					c.Trans(1)
					what := fmt.Sprintf("SearchWithReranker(%s, k=%d, threshold=%v, original=%v)", name, k, th, pre)
					if err != nil {
						c.Failf("error", "%s of %s: %v", what, s, err)
						return
					}
					want := base
					if rr != nil && len(base) > 0 {
						want, _ = rr.Rerank(bg, "beta", append([]core.ScoredEmbedding(nil), base...))
					}
					var fin []core.ScoredEmbedding
					for _, x := range want {
						if th > 0 && x.Score < th {
							continue
						}
						if pre {
							x.Score = orig[x.ID]
						}
						fin = append(fin, x)
					}
					fin = fin[:min(k, len(fin))]
					if resStr(fin) != resStr(got) {
						c.Failf("reranked", "%s of %s returns %s, want %s", what, s, resStr(got), resStr(fin))
						return
					}
					s.genuine(what, got)
				}
			}
		}
	}
	bad := core.RerankerFunc(func(context.Context, string, []core.ScoredEmbedding) ([]core.ScoredEmbedding, error) {
		return nil, errRerank
	})
	got, err := s.e.s.SearchWithReranker(bg, q, "beta", bad, core.RerankOptions{TopK: 3})
	if len(base) > 0 && !errors.Is(err, errRerank) {
		c.Failf("rerankerr", "SearchWithReranker with a failing reranker of %s returns %s, %v", s, resStr(got), err)
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C30",
		Rule: "every subset of up to 4/6 of eight vectors under each similarity, without an index and with HNSW: range, negative-example, recommendation, anomaly, diversity and reranked searches over a grid of options compared with their definitions on the rows; every built-in reranker on every short list of scored results",
		Assumptions: []string{
			"cases in which a score is within 1e-4 of a limit, or two candidates tie at the end of the candidate pool, are not judged",
			"diversification works on the 3k most similar rows, as documented in the code; DPP selections are only required to be sound",
		},
		Run: func(w *vk.W) {
			rerankLists(w)
			exact30(w)
			most := w.Pick(5, 8)
			for _, m := range metrics30 {
				for mask := 0; mask < 1<<len(vecs30); mask++ {
					if w.Stop() {
						return
					}
					n := 0
					for i := range vecs30 {
						n += mask >> i & 1
					}
					if n > most && mask != 1<<len(vecs30)-1 {
						continue
					}
					m, mask := m, mask
					for _, idx := range []string{"plain", "hnsw"} {
						if idx == "hnsw" && (m.name != "cos" || !w.Thorough() && n < 3) {
							continue
						}
						idx := idx
						w.Case(fmt.Sprintf("set|%s|%s|%02x", m.name, idx, mask), func(c *vk.C) {
							c.Defer(coins(1))
							s := &set30{m: m, e: newEnv(c, cfgT{idx + m.name, 2, func(cf *core.Config) {
								cf.SimilarityFn = m.f
								cf.HNSW.Enabled = idx == "hnsw"
							}})}
							for i, v := range vecs30 {
								if mask>>i&1 == 1 {
									r := row{id: fmt.Sprintf("v%d", i), vec: v, content: texts30[i]}
									s.rows = append(s.rows, r)
									opUpsert("", r).do(s.e)
								}
							}
							c.State(s.String())
							s.ranges()
							s.negatives()
							s.anomalies()
							s.diversity()
							s.rerankSearch()
						})
					}
				}
			}
		}})
}

// exact30: rows whose distances are exact, several of them equal, and larger
// sets of rows.
func exact30(w *vk.W) {
	mk := func(c *vk.C, m metricT, idx string, vecs [][]float32) *set30 {
		c.Defer(coins(1))
		s := &set30{m: m, e: newEnv(c, cfgT{idx + m.name, 2, func(cf *core.Config) {
			cf.SimilarityFn = m.f
			cf.HNSW.Enabled = idx == "hnsw"
			cf.HNSW.M = 64
		}})}
		for i, v := range vecs {
			r := row{id: fmt.Sprintf("v%d", i), vec: v, content: texts30[i%len(texts30)]}
			s.rows = append(s.rows, r)
			opUpsert("", r).do(s.e)
		}
		c.State(s.String())
		return s
	}
	many := func(n int) (l [][]float32) {
		for i := 0; i < n; i++ {
			a := 0.1 + 2.8*float64((i*17)%n)/float64(n)
			r := 0.5 + float64(i%5)/4
			l = append(l, []float32{float32(r * math.Cos(a)), float32(r * math.Sin(a))})
		}
		return
	}
	for _, m := range metrics30 {
		m := m
		for di, vecs := range [][][]float32{
			{{1, 0.5}, {1, 0.5}},
			{{1, 0.5}, {1, 0.5}, {-2, 0.4}},
			{{1, 0.5}, {1, 0.5}, {1, 0.5}, {0.2, -1}, {3, 1}},
			{{1, 0.5}, {2, 1}, {1, 0.5}, {0.3, 0.3}, {0.3, 0.3}, {-1, 0.2}, {-1, 0.2}, {0.9, -0.4}},
		} {
			vecs := vecs
			w.Case(fmt.Sprintf("equal|%s|%d", m.name, di), func(c *vk.C) {
				s := mk(c, m, "plain", vecs)
				s.ranges()
				s.negatives()
				s.anomalies()
				s.diversity()
			})
		}
		for _, idx := range []string{"plain", "hnsw"} {
			for _, n := range []int{13, 40} {
				if idx == "hnsw" && m.name != "cos" {
					continue
				}
				idx, n := idx, n
				w.Case(fmt.Sprintf("many|%s|%s|%d", m.name, idx, n), func(c *vk.C) {
					s := mk(c, m, idx, many(n))
					s.ranges()
					s.negatives()
					s.anomalies()
					s.diversity()
				})
			}
		}
		if m.dist == nil {
			continue
		}
		w.Case("bounds|"+m.name, func(c *vk.C) {
			vecs := [][]float32{{3, 4}, {6, 8}, {0, 5}, {-3, -4}, {0, 1}, {3, 0}}
			q, rs := []float32{0, 0}, []float32{5, 10, 1, 3}
			if m.name == "cos" { // only right and half angles are exact
				vecs = [][]float32{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}
				q, rs = []float32{1, 0}, []float32{1, 2}
			}
			s := mk(c, m, "plain", vecs)
			for _, r := range rs {
				score := map[string]float64{}
				for _, x := range s.rows {
					if d := m.dist(q, x.vec); d <= float64(r) {
						score[x.id] = d
					}
				}
				got, err := s.e.s.RangeSearch(bg, q, r, core.SearchOptions{})
				s.ranked(fmt.Sprintf("RangeSearch(%v, exactly %v)", q, r), got, err, score, 0, false)
				// rows exactly the minimum distance apart may stand together
				for _, qq := range [][]float32{{1, 0.1}, {-0.3, -1}} {
					got, err := s.e.s.SearchWithDiversity(bg, qq, core.DiversitySearchOptions{Method: core.DiversityDistance, MinDistance: r, SearchOptions: core.SearchOptions{TopK: 10}})
					if err != nil {
						c.Failf("error", "SearchWithDiversity: %v", err)
						return
					}
					c.Trans(1)
					var want []string
					order := append([]row(nil), s.rows...)
					sort.SliceStable(order, func(i, j int) bool { return m.sim(qq, order[i].vec) > m.sim(qq, order[j].vec) })
					var taken []row
					for _, x := range order {
						ok := true
						for _, y := range taken {
							ok = ok && m.dist(x.vec, y.vec) >= float64(r)
						}
						if ok {
							taken = append(taken, x)
							want = append(want, x.id)
						}
					}
					var ids []string
					for _, g := range got {
						ids = append(ids, g.ID)
					}
					if fmt.Sprint(ids) != fmt.Sprint(want) {
						c.Failf("distance", "SearchWithDiversity(%v, at least %v apart) of %s returns %v, want %v", qq, r, s, ids, want)
						return
					}
				}
			}
		})
	}
}
