package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func unit(v []float64) []float64 {
	n := 0.0
	for _, x := range v {
		n += x * x
	}
	n = math.Sqrt(n)
	if n == 0 {
		return v
	}
	o := make([]float64, len(v))
	for i, x := range v {
		o[i] = x / n
	}
	return o
}

// adapted says what a policy makes of a vector; noise is the magnitude by which
// padded components may differ (smart padding adds noise). ok=false: refused.
func adapted(p core.AdaptPolicy, v []float32, dim int) (w []float64, noise float64, ok bool) {
	f := make([]float64, len(v))
	for i, x := range v {
		f[i] = float64(x)
	}
	if len(v) == dim {
		return f, 0, true
	}
	if p == core.StrictMode || p == core.WarnOnly {
		return nil, 0, false
	}
	if len(v) < dim {
		o := make([]float64, dim)
		copy(o, f)
		if p == core.SmartAdapt {
			noise = 0.1
		}
		return unit(o), noise, true
	}
	if p != core.SmartAdapt {
		return unit(f[:dim]), 0, true
	}
	idx := make([]int, len(v))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return math.Abs(f[idx[a]]) > math.Abs(f[idx[b]]) })
	keep := append([]int(nil), idx[:dim]...)
	sort.Ints(keep)
	o := make([]float64, dim)
	for i, k := range keep {
		o[i] = f[k]
	}
	return unit(o), 0, true
}

type dimEnv struct {
	*env
	policy core.AdaptPolicy
	dim    int // 0: not fixed yet
	rows   map[string][]float32
	want   map[string][]float64
	noise  map[string]float64
}

var dimVecs = map[string][]float32{
	"2": {0.6, -0.3}, "2z": {0, 0}, "3": {0.1, 2, -3}, "1": {-4}, "4": {5, -6, 0.5, 0.25}, "4a": {0.01, 0.02, 0.5, -0.3},
}

type dimOp struct {
	name string
	do   func(e *dimEnv)
}

// put applies the model's side of inserting vectors in order; ok=false refuses all.
func (e *dimEnv) put(ids []string, vs [][]float32, valid bool) bool {
	if !valid {
		return false
	}
	d := e.dim
	if d == 0 {
		d = len(vs[0])
	}
	var ws [][]float64
	var ns []float64
	for _, v := range vs {
		w, n, ok := adapted(e.policy, v, d)
		if !ok {
			return false
		}
		ws = append(ws, w)
		ns = append(ns, n)
	}
	e.dim = d
	for i, id := range ids {
		e.want[id], e.noise[id] = ws[i], ns[i]
	}
	return true
}

func dimUpsert(id, v string) dimOp {
	return dimOp{"U(" + id + "=" + v + ")", func(e *dimEnv) {
		err := e.s.Upsert(bg, &core.Embedding{ID: id, Vector: append([]float32(nil), dimVecs[v]...), Content: "x"})
		e.wantErr("Upsert", err, !e.put([]string{id}, [][]float32{dimVecs[v]}, true))
	}}
}

func dimBatch(id1, v1, id2, v2 string) dimOp {
	return dimOp{fmt.Sprintf("B(%s=%s,%s=%s)", id1, v1, id2, v2), func(e *dimEnv) {
		err := e.s.UpsertBatch(bg, []*core.Embedding{{ID: id1, Vector: append([]float32(nil), dimVecs[v1]...), Content: "x"}, {ID: id2, Vector: append([]float32(nil), dimVecs[v2]...), Content: "x"}})
		e.wantErr("UpsertBatch", err, !e.put([]string{id1, id2}, [][]float32{dimVecs[v1], dimVecs[v2]}, true))
	}}
}

func dimBad(name string, emb core.Embedding, batch bool) dimOp {
	return dimOp{name, func(e *dimEnv) {
		x := emb
		x.Vector = append([]float32(nil), emb.Vector...)
		var err error
		if batch {
			err = e.s.UpsertBatch(bg, []*core.Embedding{{ID: "ok", Vector: append([]float32(nil), emb.Vector...), Content: "x"}, &x})
		} else {
			err = e.s.Upsert(bg, &x)
		}
		e.wantErr(name, err, true)
	}}
}

func (e *dimEnv) observe() {
	c := e.c
	st, err := e.s.Stats(bg)
	if err != nil || int(st.Count) != len(e.want) {
		c.Failf("stats", "Stats: count %d, want %d (%v)", st.Count, len(e.want), err)
	}
	if len(e.want) > 0 && st.Dimensions != e.dim {
		c.Failf("dim", "Stats: dimensions %d, want %d", st.Dimensions, e.dim)
	}
	stored := map[string][]float32{}
	for _, id := range []string{"a", "b", "ok", "bad"} {
		g, err := e.s.GetByID(bg, id)
		w, ok := e.want[id]
		if ok != (err == nil) {
			c.Failf("row", "GetByID(%s): %v, want present=%v", id, err, ok)
		}
		if !ok {
			continue
		}
		if len(g.Vector) != e.dim {
			c.Failf("mixed", "%s is stored with %d components in a store of dimension %d", id, len(g.Vector), e.dim)
		}
		for i := range w {
			if math.Abs(float64(g.Vector[i])-w[i]) > 1e-6*(1+math.Abs(w[i]))+e.noise[id] {
				c.Failf("adapt", "%s is stored as %v, want %v", id, g.Vector, w)
			}
		}
		stored[id] = g.Vector
	}
	// queries of every length
	for name, q := range dimVecs {
		if name == "2z" || len(e.want) == 0 {
			continue
		}
		aq, noise, ok := adapted(e.policy, q, e.dim)
		for _, how := range []string{"Search", "SearchWithFilter"} {
			var got []core.ScoredEmbedding
			var err error
			if how == "Search" {
				got, err = e.s.Search(bg, append([]float32(nil), q...), core.SearchOptions{TopK: 5})
			} else {
				got, err = e.s.SearchWithFilter(bg, append([]float32(nil), q...), core.SearchOptions{TopK: 5}, nil)
			}
			if ok != (err == nil) {
				c.Failf("query", "%s with a query of %d components in a store of %d: %v", how, len(q), e.dim, err)
			}
			if !ok {
				continue
			}
			f := make([]float32, len(aq))
			for i := range aq {
				f[i] = float32(aq[i])
			}
			if len(got) != len(stored) {
				c.Failf("results", "%s(%v) returns %s of %d rows", how, q, resStr(got), len(stored))
			}
			for _, g := range got {
				w := refCos(f, stored[g.ID])
				if math.Abs(w-g.Score) > 1e-4+3*noise {
					c.Failf("score", "%s(%v): %s scores %v, want %v", how, q, g.ID, g.Score, w)
				}
			}
			c.Count("queries", 1)
		}
	}
}

// adaptGrid adapts every arrangement of up to 5 components of different
// magnitudes, on every scale, to every dimension under every policy.
func adaptGrid(c *vk.C, n int) {
	base := []float32{1, -2, 3, -5, 8}[:n]
	var perms [][]float32
	var rec func(p []float32, used int)
	rec = func(p []float32, used int) {
		if len(p) == n {
			perms = append(perms, append([]float32(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(p, base[i]), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	for _, scale := range []float32{1e-20, 1e-6, 1e-4, 0.1, 1, 1e4, 1e15} {
		for _, p := range perms {
			v := make([]float32, n)
			for i := range p {
				v[i] = p[i] * scale
			}
			for dim := 1; dim <= 6; dim++ {
				for _, pol := range []core.AdaptPolicy{core.StrictMode, core.SmartAdapt, core.AutoTruncate, core.AutoPad, core.WarnOnly} {
					in := append([]float32(nil), v...)
					got, err := core.NewDimensionAdapter(pol).AdaptVector(in, n, dim)
					want, noise, ok := adapted(pol, v, dim)
					c.Trans(1)
					if ok != (err == nil) {
						c.Failf("grid", "adapting %v to %d components under policy %d: %v", v, dim, pol, err)
					}
					if !sameVec(in, v) {
						c.Failf("grid", "adapting %v to %d components under policy %d changes the caller's vector to %v", v, dim, pol, in)
					}
					if !ok {
						continue
					}
					if len(got) != dim {
						c.Failf("grid", "adapting %v to %d components under policy %d gives %v", v, dim, pol, got)
					}
					for i := range want {
						if math.Abs(float64(got[i])-want[i]) > 1e-5*(math.Abs(want[i])+min(1, float64(scale)))+noise {
							c.Failf("grid", "adapting %v to %d components under policy %d gives %v, want %v", v, dim, pol, got, want)
						}
					}
				}
			}
			c.State(fmt.Sprint(v))
		}
	}
	for a := 0; a <= 10; a++ {
		for b := 0; b <= a; b++ {
			for d := 0; d <= b; d++ {
				var vs [][]float32
				for i, k := range []int{a, b, d} {
					for j := 0; j < k; j++ {
						vs = append(vs, make([]float32, (i+n)%3+2))
					}
				}
				r := core.AnalyzeDimensions(vs)
				t := a + b + d
				c.Trans(1)
				if r.TotalVectors != t || r.PrimaryCount != a || t > 0 && r.Dimensions[r.PrimaryDim] != a || r.NeedsMigration != (b > 0 && 10*a < 8*t) {
					c.Failf("analyze", "AnalyzeDimensions of %d, %d and %d vectors = %+v", a, b, d, *r)
				}
			}
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C12", Rule: "every arrangement of up to 5 components on 7 scales adapted to 1 to 6 components under every policy; every sequence of up to 3/4 inserts (single, batch, invalid), deletions and reopenings with vectors of 1 to 4 components, for five adaptation policies, fixed and auto-detected dimension, with and without HNSW; all stored vectors must have the store's dimension and the value the policy defines, queries likewise",
		Run: func(w *vk.W) {
			ops := []dimOp{
				dimUpsert("a", "2"), dimUpsert("a", "3"), dimUpsert("b", "4"), dimUpsert("b", "1"), dimUpsert("a", "4a"), dimUpsert("b", "2z"),
				dimBatch("a", "3", "b", "2"), dimBatch("a", "2", "b", "2"),
				dimBad("U(unknown collection)", core.Embedding{ID: "bad", Vector: dimVecs["3"], Collection: "nope"}, false),
				dimBad("U(NaN)", core.Embedding{ID: "bad", Vector: []float32{1, float32(math.NaN()), 2}}, false),
				dimBad("B(unknown document)", core.Embedding{ID: "bad", Vector: dimVecs["3"], DocID: "nope"}, true),
				dimBad("B(Inf)", core.Embedding{ID: "bad", Vector: []float32{float32(math.Inf(1)), 1}}, true),
				{"D(a)", func(e *dimEnv) {
					_, ok := e.want["a"]
					e.wantErr("Delete", e.s.Delete(bg, "a"), !ok)
					delete(e.want, "a")
				}},
				{"REOPEN", func(e *dimEnv) {
					e.reopen()
					if len(e.want) == 0 && e.cfg.VectorDim == 0 {
						e.dim = 0
					}
				}},
			}
			for n := 1; n <= 5; n++ {
				n := n
				w.Case(fmt.Sprintf("grid|%d", n), func(c *vk.C) { adaptGrid(c, n) })
			}
			for _, hnsw := range []bool{false, true} {
				for _, p := range []core.AdaptPolicy{core.StrictMode, core.SmartAdapt, core.AutoTruncate, core.AutoPad, core.WarnOnly} {
					for _, dim := range []int{0, 2, 3} {
						depth := w.Pick(3, 4)
						if hnsw {
							depth--
						}
						n := len(ops)
						total := int(math.Pow(float64(n), float64(depth)))
						for k := 0; k < total; k++ {
							if w.Stop() {
								return
							}
							if !w.Mine() {
								w.Skip(1)
								continue
							}
							seq := make([]dimOp, depth)
							name := fmt.Sprintf("hnsw=%v policy=%d dim=%d", hnsw, p, dim)
							for i, x := depth-1, k; i >= 0; i-- {
								seq[i] = ops[x%n]
								x /= n
							}
							for _, o := range seq {
								name += "|" + o.name
							}
							w.Case(name, func(c *vk.C) {
								c.Defer(coins(1))
								ct := cfgT{fmt.Sprintf("dim%v%d", hnsw, p), dim, func(cfg *core.Config) { cfg.AutoDimAdapt = p; cfg.HNSW.Enabled = hnsw }}
								e := &dimEnv{env: newEnv(c, ct), policy: p, dim: dim, want: map[string][]float64{}, noise: map[string]float64{}}
								for i, o := range seq {
									c.Logf("%s", o.name)
									o.do(e)
									c.Trans(1)
									c.State(fmt.Sprint(hnsw, p, dim, e.dim, e.want))
									if i == len(seq)-1 || i == 0 {
										e.observe()
									}
								}
							})
						}
					}
				}
			}
		}})
}
