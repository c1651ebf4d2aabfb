package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// C35: multi-vector entities.

type mvEnt struct {
	content string
	meta    map[string]interface{}
	vecs    map[string][]float32
}

type mvEnv struct {
	*env
	ents map[string]*mvEnt
}

func (e *mvEnv) String() string {
	var l []string
	for id, x := range e.ents {
		j, _ := json.Marshal(x.meta)
		v, _ := json.Marshal(x.vecs)
		l = append(l, fmt.Sprintf("%q:%q %s %s", id, x.content, j, v))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, "; ") + "] " + e.m.String()
}

func mvClone(x *mvEnt) *mvEnt {
	n := &mvEnt{content: x.content, meta: map[string]interface{}{}, vecs: map[string][]float32{}}
	for k, v := range x.meta {
		n.meta[k] = v
	}
	for k, v := range x.vecs {
		n.vecs[k] = append([]float32(nil), v...)
	}
	return n
}

// put upserts an entity; fields it does not name keep their vectors.
func (e *mvEnv) put(id string, x *mvEnt) {
	in := mvClone(x)
	ent := &core.MultiVectorEntity{ID: id, Content: in.content, Metadata: in.meta, Vectors: in.vecs}
	if x.meta == nil {
		ent.Metadata = nil
	}
	before, _ := json.Marshal(ent)
	if err := e.s.UpsertMultiVector(bg, ent); err != nil {
		e.c.Failf("upsert", "UpsertMultiVector(%q): %v", id, err)
	}
	if after, _ := json.Marshal(ent); string(after) != string(before) {
		e.c.Failf("argument", "UpsertMultiVector changes its argument from %s to %s", before, after)
	}
	old := e.ents[id]
	n := mvClone(x)
	if old != nil {
		for f, v := range old.vecs {
			if _, ok := n.vecs[f]; !ok {
				n.vecs[f] = v
			}
		}
	}
	if len(n.vecs) > 0 {
		e.ents[id] = n
	}
}

func (e *mvEnv) del(id string) {
	if err := e.s.DeleteMultiVectorEntity(bg, id); err != nil && e.ents[id] != nil {
		e.c.Failf("delete", "DeleteMultiVectorEntity(%q): %v", id, err)
	}
	delete(e.ents, id)
}

func mvMeta(m map[string]interface{}) string { // as the store reports it in search hits
	t := map[string]string{}
	for k, v := range m {
		t[k] = fmt.Sprint(v)
	}
	return metaStr(t)
}

var mvIDs = []string{"e_1", "E_1", "ex1", "e_1 ", "e", "e_1___f", "nobody", ""}

// observe judges reads of every entity and every kind of search.
func (e *mvEnv) observe(q map[string][]float32, ks []int, deep bool) {
	c := e.c
	for _, id := range mvIDs {
		g, err := e.s.GetMultiVectorEntity(bg, id)
		x := e.ents[id]
		if x == nil {
			if err == nil || !errors.Is(err, core.ErrNotFound) {
				c.Failf("ghost", "GetMultiVectorEntity(%q) = %+v, %v; there is no such entity in %s", id, g, err, e)
			}
			continue
		}
		if err != nil {
			c.Failf("get", "GetMultiVectorEntity(%q): %v, in %s", id, err, e)
		}
		if g.ID != id || g.Content != x.content || mvMeta(g.Metadata) != mvMeta(x.meta) || len(g.Vectors) != len(x.vecs) {
			c.Failf("get", "GetMultiVectorEntity(%q) = %+v, want %s", id, *g, e)
		}
		for f, v := range x.vecs {
			if !sameVec(g.Vectors[f], v) {
				c.Failf("get", "GetMultiVectorEntity(%q).Vectors[%q] = %v, want %v", id, f, g.Vectors[f], v)
			}
		}
	}
	fieldSets := [][]string{nil, {"f"}, {"g", "f"}, {"F"}, {"h"}}
	weights := []map[string]float32{nil, {"f": 2}, {"f": 0.25, "g": -1}, {"g": 0}, {"h": 9}}
	aggs := []core.AggregationMethod{core.AggregateMax, core.AggregateMin, core.AggregateAverage, core.AggregateSum, core.AggregateWeighted, ""}
	filters := []map[string]string{nil, {"kind": "x"}, {"kind": "x", "n": "2"}, {"kind": "z"}}
	if !deep {
		fieldSets, weights, filters = fieldSets[:2], weights[:3], filters[:2]
	}
	for fi, fs := range fieldSets {
		for wi, ws := range weights {
			for _, ag := range aggs {
				for li, fl := range filters {
					if li > 0 && (fi+wi)%2 == 1 {
						continue
					}
					for _, k := range ks {
						e.judge(q, core.MultiVectorSearchOptions{VectorFields: fs, FieldWeights: ws, Aggregation: ag, SearchOptions: core.SearchOptions{TopK: k, Filter: fl}})
					}
				}
			}
		}
	}
}

func (e *mvEnv) judge(q map[string][]float32, o core.MultiVectorSearchOptions) {
	c := e.c
	c.Trans(1)
	want := map[string]float64{}
	for id, x := range e.ents {
		ok := o.Collection == "" || o.Collection == "default"
		for k, v := range o.Filter {
			mv, has := x.meta[k]
			ok = ok && has && fmt.Sprint(mv) == v
		}
		if !ok {
			continue
		}
		var sc []float64
		for f, qv := range q {
			if v, has := x.vecs[f]; has && (len(o.VectorFields) == 0 || contains(o.VectorFields, f)) {
				s := refCos(qv, v)
				if wt, has := o.FieldWeights[f]; has {
					s *= float64(wt)
				}
				sc = append(sc, s)
			}
		}
		if len(sc) == 0 {
			continue
		}
		sort.Float64s(sc)
		sum := 0.0
		for _, s := range sc {
			sum += s
		}
		switch o.Aggregation {
		case core.AggregateMax:
			want[id] = sc[len(sc)-1]
		case core.AggregateMin:
			want[id] = sc[0]
		case core.AggregateSum:
			want[id] = sum
		default:
			want[id] = sum / float64(len(sc))
		}
	}
	what := fmt.Sprintf("SearchMultiVector(%v, %+v) of %s", q, o, e)
	before := fmt.Sprintf("%v %+v", q, o)
	l, err := e.s.SearchMultiVector(bg, q, o)
	if err != nil {
		c.Failf("error", "%s: %v", what, err)
	}
	if after := fmt.Sprintf("%v %+v", q, o); after != before {
		c.Failf("argument", "%s leaves its arguments as %s", what, after)
	}
	n := len(want)
	if o.TopK > 0 && n > o.TopK {
		n = o.TopK
	}
	if len(l) != n {
		c.Failf("count", "%s returns %d entities, want %d of %s", what, len(l), n, scoreStr(want))
	}
	var best []float64
	for _, s := range want {
		best = append(best, s)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(best)))
	seen := map[string]bool{}
	for i, g := range l {
		s, ok := want[g.ID]
		x := e.ents[g.ID]
		if !ok || seen[g.ID] {
			c.Failf("hit", "%s returns %q (again: %v), want %s", what, g.ID, seen[g.ID], scoreStr(want))
		}
		seen[g.ID] = true
		if math.Abs(g.Score-s) > eps30 || math.Abs(best[i]-s) > eps30 {
			c.Failf("score", "%s returns %q with %.4f at rank %d, its score is %.4f and that rank's %.4f", what, g.ID, g.Score, i, s, best[i])
		}
		m := map[string]string{}
		for k, v := range g.Metadata {
			if k != "_entity_id" && k != "_vector_field" {
				m[k] = v
			}
		}
		if g.Content != x.content || metaStr(m) != mvMeta(x.meta) {
			c.Failf("fields", "%s returns %q with content %q and metadata %v", what, g.ID, g.Content, g.Metadata)
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func newMV(c *vk.C, ct cfgT) *mvEnv { return &mvEnv{env: newEnv(c, ct), ents: map[string]*mvEnt{}} }

func init() {
	vk.Register(&vk.Check{ID: "C35", Rule: "every sequence of entity upserts (whole, single-field, other content and metadata), entity deletions, plain-row upserts and deletions and reopening up to the depth, per index configuration; and every assignment of vectors from a palette to two fields of three entities; after each, every entity is read back and every combination of queried fields, weights, aggregation, filter and TopK is searched and compared with the aggregate computed from the model",
		Assumptions: []string{"entity ids and field names do not contain the separator of the composite row ids in a way that makes two entities share a row", "an upsert keeps the vectors of fields it does not name"},
		Run: func(w *vk.W) {
			cfgs := []cfgT{{"plain", 2, nil}, {"hnsw", 2, func(c *core.Config) { c.HNSW.Enabled = true }}, {"ivf", 2, func(c *core.Config) {
				c.IndexType = core.IndexTypeIVF
				c.IVF.Enabled = true
				c.IVF.NCentroids = 2
				c.IVF.NProbe = 2
			}}}
			q := map[string][]float32{"f": {1, 0.2}, "g": {-0.3, 1}, "F": {0.5, -0.8}}
			put := func(id string, content string, meta map[string]interface{}, vecs map[string][]float32) func(*mvEnv) {
				return func(e *mvEnv) { e.put(id, &mvEnt{content, meta, vecs}) }
			}
			type mop struct {
				name string
				do   func(*mvEnv)
			}
			ops := []mop{
				{"e1", put("e_1", "one", map[string]interface{}{"kind": "x", "n": 2}, map[string][]float32{"f": sv["p"], "g": sv["q"]})},
				{"e1f", put("e_1", "one again", map[string]interface{}{"kind": "z", "ok": true}, map[string][]float32{"f": sv["r"]})},
				{"e1F", put("e_1", "", nil, map[string][]float32{"F": sv["s"]})},
				{"E1", put("E_1", "other", map[string]interface{}{"kind": "x"}, map[string][]float32{"f": sv["s"], "F": sv["t"]})},
				{"ex1", put("ex1", "third", map[string]interface{}{"kind": "x", "n": "2"}, map[string][]float32{"g": sv["u"]})},
				{"del e1", func(e *mvEnv) { e.del("e_1") }},
				{"del E1", func(e *mvEnv) { e.del("E_1") }},
				{"del none", func(e *mvEnv) { e.del("e") }},
				{"row", func(e *mvEnv) {
					opUpsert("", row{id: "e_1", vec: sv["p"], content: "plain", meta: map[string]string{"kind": "x"}}).do(e.env)
					opUpsert("", row{id: "bare", vec: sv["q"], content: "plain"}).do(e.env)
				}},
				{"rowdel", func(e *mvEnv) { opDelete("e_1").do(e.env) }},
				{"fielddel", func(e *mvEnv) {
					x := e.ents["e_1"]
					err := e.s.Delete(bg, "e_1___f")
					if (err == nil) != (x != nil && x.vecs["f"] != nil) {
						e.c.Failf("fielddel", "Delete(e_1___f): %v, in %s", err, e)
					}
					if x != nil {
						delete(x.vecs, "f")
						if len(x.vecs) == 0 {
							delete(e.ents, "e_1")
						}
					}
				}},
				{"reopen", func(e *mvEnv) { e.reopen() }},
			}
			names := make([]string, len(ops))
			for i, o := range ops {
				names[i] = o.name
			}
			for _, ct := range cfgs {
				ct := ct
				d := w.Pick(3, 4)
				if ct.name != "plain" {
					d = w.Pick(2, 3)
				}
				seqsOf(w, ct.name, names, d, func(c *vk.C, seq []int) {
					c.Defer(coins(1))
					e := newMV(c, ct)
					if ct.name == "ivf" {
						for i, v := range []string{"p", "q", "r", "u"} {
							opUpsert("", row{id: fmt.Sprint("t", i), vec: sv[v], content: "train"}).do(e.env)
						}
						trainIVF(2).do(e.env)
					}
					for _, j := range seq {
						c.Logf("%s", ops[j].name)
						ops[j].do(e)
						c.State(ct.name + e.String())
					}
					e.observe(q, []int{0, 1, 2, 5}, len(seq) < 3)
					// plain rows and entities' rows share the table, not their fate
					for _, id := range e.m.ids() {
						g, err := e.s.GetByID(bg, id)
						if err != nil {
							c.Failf("row", "GetByID(%q): %v, in %s", id, err, e)
						} else if df := diffEmb(g, e.m.rows[id], true, false); df != "" {
							c.Failf("row", "GetByID(%q): %s, in %s", id, df, e)
						}
					}
					nrows := len(e.m.rows)
					for _, x := range e.ents {
						nrows += len(x.vecs)
					}
					if st, err := e.s.Stats(bg); err != nil || int(st.Count) != nrows {
						c.Failf("stats", "Stats counts %v rows (%v), want %d in %s", st.Count, err, nrows, e)
					}
				})
			}
			// ranking: every assignment of palette vectors to two fields of three entities
			pal := [][]float32{nil, {1, 0.1}, {0.2, 1}, {-0.7, 0.6}}
			if w.Thorough() {
				pal = append(pal, []float32{0.9, -0.4})
			}
			np := len(pal)
			tot := 1
			for i := 0; i < 6; i++ {
				tot *= np
			}
			for k := 0; k < tot; k++ {
				if w.Stop() {
					return
				}
				if !w.Mine() {
					w.Skip(1)
					continue
				}
				k := k
				w.Case(fmt.Sprintf("rank|%d", k), func(c *vk.C) {
					e := newMV(c, cfgs[0])
					x := k
					for _, id := range []string{"e_1", "E_1", "ex1"} {
						vs := map[string][]float32{}
						if v := pal[x%np]; v != nil {
							vs["f"] = v
						}
						if v := pal[x/np%np]; v != nil {
							vs["g"] = v
						}
						x /= np * np
						if len(vs) > 0 {
							e.put(id, &mvEnt{"text " + id, map[string]interface{}{"kind": "x"}, vs})
						}
					}
					c.State(e.String())
					qq := map[string][]float32{"f": {1, 0.2}, "g": {-0.3, 1}}
					for _, ag := range []core.AggregationMethod{core.AggregateMax, core.AggregateMin, core.AggregateAverage, core.AggregateSum, core.AggregateWeighted} {
						for _, ws := range []map[string]float32{nil, {"f": 0.5, "g": 2}} {
							for _, kk := range []int{1, 2, 3} {
								e.judge(qq, core.MultiVectorSearchOptions{FieldWeights: ws, Aggregation: ag, SearchOptions: core.SearchOptions{TopK: kk}})
							}
						}
					}
				})
			}
		}})
}
