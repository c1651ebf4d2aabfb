package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// fault makes the k-th storage event from now on fail (and all later ones when
// sticky). fired tells whether it was reached.
type fault struct {
	k      int
	sticky bool
	n      int
	fired  bool
	at     string
}

func (f *fault) arm() {
	vsql.SetHook(func(ev vsql.Event) error {
		i := f.n
		f.n++
		if i == f.k || (f.sticky && i > f.k) {
			if !f.fired {
				f.at = ev.Kind + " " + strings.Join(strings.Fields(ev.SQL), " ")
				if len(f.at) > 90 {
					f.at = f.at[:90]
				}
			}
			f.fired = true
			return vsql.ErrInjected
		}
		return nil
	})
}

// eachFault calls f for every position at which one storage event of the
// operation can fail, until the operation runs without reaching the fault.
func eachFault(c *vk.C, max int, f func(ft *fault) bool) {
	for _, sticky := range []bool{false, true} {
		for k := 0; k < max; k++ {
			ft := &fault{k: k, sticky: sticky}
			more := f(ft)
			vsql.SetHook(nil)
			if !ft.fired {
				break
			}
			c.Count("faults", 1)
			if !more {
				break
			}
		}
	}
}

// wop is a write with the model effect of its success.
type wop struct {
	name  string
	run   func(e *env) error
	apply func(m *model)
}

func faultOps() []wop {
	up := func(name string, rs ...row) wop {
		return wop{name, func(e *env) error {
			if len(rs) == 1 {
				return e.s.Upsert(bg, toEmb(rs[0]))
			}
			var l []*core.Embedding
			for _, r := range rs {
				l = append(l, toEmb(r))
			}
			return e.s.UpsertBatch(bg, l)
		}, func(m *model) {
			for _, r := range rs {
				m.put(r)
			}
		}}
	}
	typeX := func(r row) bool { return r.meta["type"] == "x" }
	return []wop{
		up("U(new)", row{id: "a", vec: sv["t"], content: "new", coll: "c_1", doc: "d_1"}),
		up("U(x)", row{id: "x", vec: sv["s"], content: "changed"}),
		up("UB(x,a,y)", row{id: "x", vec: sv["s"], content: "x2"}, row{id: "a", vec: sv["u"], content: "a", coll: "c_1"}, row{id: "y", vec: sv["r"], content: "y2", doc: "d_1"}),
		{"D(x)", func(e *env) error { return e.s.Delete(bg, "x") }, func(m *model) { delete(m.rows, "x") }},
		{"DB(x,z)", func(e *env) error { return e.s.DeleteBatch(bg, []string{"x", "z", "nope"}) }, func(m *model) { delete(m.rows, "x"); delete(m.rows, "z") }},
		{"DBD(d1)", func(e *env) error { return e.s.DeleteByDocID(bg, "d_1") }, func(m *model) { m.delDoc("d_1") }},
		{"CLD(d1,d2)", func(e *env) error { return e.s.ClearByDocID(bg, []string{"d_1", "D_1"}) }, func(m *model) { m.delDoc("d_1"); m.delDoc("D_1") }},
		{"DF", func(e *env) error { return e.s.DeleteByFilter(bg, core.NewMetadataFilter().Equal("type", "x")) }, func(m *model) {
			for id, r := range m.rows {
				if typeX(r) {
					delete(m.rows, id)
				}
			}
		}},
		{"CLR", func(e *env) error { return e.s.Clear(bg) }, func(m *model) { m.rows = map[string]row{} }},
		{"CC", func(e *env) error { _, err := e.s.CreateCollection(bg, "C_1", 2); return err }, func(m *model) { m.colls["C_1"] = 2 }},
		{"DC", func(e *env) error { return e.s.DeleteCollection(bg, "c_1") }, func(m *model) { m.delColl("c_1"); delete(m.colls, "c_1") }},
		{"CD", func(e *env) error { return e.s.CreateDocument(bg, toDoc(docRow{id: "d3", title: "T3", version: 1})) }, func(m *model) { m.docs["d3"] = docRow{id: "d3", title: "T3", version: 1} }},
		{"UD", func(e *env) error { return e.s.UpdateDocument(bg, toDoc(docRow{id: "d_1", title: "Tn", version: 4})) }, func(m *model) { m.docs["d_1"] = docRow{id: "d_1", title: "Tn", version: 4} }},
		{"DD", func(e *env) error { return e.s.DeleteDocument(bg, "d_1") }, func(m *model) { m.delDoc("d_1"); delete(m.docs, "d_1") }},
		{"MVU", func(e *env) error {
			return e.s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "ent", Content: "mv", Vectors: map[string][]float32{"f": sv["t"], "g": sv["s"]}})
		}, func(m *model) {
			for f, v := range map[string][]float32{"f": sv["t"], "g": sv["s"]} {
				m.put(row{id: "ent___" + f, vec: v, content: "mv", meta: map[string]string{"_entity_id": "ent", "_vector_field": f}})
			}
		}},
		{"MVD", func(e *env) error { return e.s.DeleteMultiVectorEntity(bg, "old") }, func(m *model) { delete(m.rows, "old___f"); delete(m.rows, "old___g") }},
		{"TRAIN", func(e *env) error {
			if e.cfg.IndexType != core.IndexTypeIVF {
				return nil
			}
			return e.s.TrainIndex(bg, 2)
		}, func(m *model) {}},
		{"SES", func(e *env) error { return e.s.CreateSession(bg, &core.Session{ID: "s_2", UserID: "u2"}) }, func(m *model) { m.chat["s_2"] = []string{} }},
		{"MSG", func(e *env) error {
			return e.s.AddMessage(bg, &core.Message{ID: "m9", SessionID: "s_1", Role: "user", Content: "third word", Vector: sv["q"]})
		}, func(m *model) { m.chat["s_1"] = append(m.chat["s_1"], "m9 third word") }},
	}
}

// observeChat compares every chat reading with the model.
func observeChat(e *env) {
	for _, id := range []string{"s_1", "s_2"} {
		want, ok := e.m.chat[id]
		s, err := e.s.GetSession(bg, id)
		if ok != (err == nil && s != nil) {
			e.c.Failf("chat", "GetSession(%s) returned %v, %v; want present: %v", id, s, err, ok)
		}
		h, err := e.s.GetSessionHistory(bg, id, 10)
		if err != nil {
			e.c.Failf("chat", "GetSessionHistory(%s): %v", id, err)
		}
		got := []string{}
		for _, m := range h {
			got = append(got, m.ID+" "+m.Content)
		}
		if strings.Join(got, "|") != strings.Join(want, "|") {
			e.c.Failf("chat", "history of %s is %q, want %q", id, got, want)
		}
		words := 0
		for _, m := range want {
			if strings.Contains(m, "word") {
				words++
			}
		}
		u := map[string]string{"s_1": "u", "s_2": "u2"}[id]
		l, err := e.s.KeywordSearchMessages(bg, "word", u, "", 10)
		if err != nil || len(l) != words {
			e.c.Failf("chat", "KeywordSearchMessages(word, %s): %d messages, %v; want %d", u, len(l), err, words)
		}
		v, err := e.s.SearchChatHistory(bg, []float32{0.9, 0.3}, id, 10)
		if err != nil || len(v) != len(want) {
			e.c.Failf("chat", "SearchChatHistory(%s): %d messages, %v; want %d", id, len(v), err, len(want))
		}
	}
}

var faultUniverse = []string{"a", "b", "x", "y", "z", "w", "old___f", "old___g", "ent___f", "ent___g"}

func faultEnv(ct cfgT) func(c *vk.C) *env {
	return func(c *vk.C) *env {
		e := newEnv(c, ct)
		opCreateColl("c_1", 2).do(e)
		opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
		opCreateDoc(docRow{id: "D_1", title: "T2", version: 1, author: "au"}).do(e)
		opBatch("seed", row{id: "x", vec: sv["p"], content: "xx word", meta: map[string]string{"type": "x", "n": "3"}}, row{id: "y", vec: []float32{0.8, 0.45}, content: "yy word", coll: "c_1"}, row{id: "z", vec: []float32{-0.9, 0.35}, content: "z", doc: "d_1", meta: map[string]string{"type": "x", "n": "4"}}, row{id: "w", vec: []float32{0.1, -0.95}, content: "w", doc: "D_1", acl: []string{"u1"}}).do(e)
		if err := e.s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "old", Content: "mv", Vectors: map[string][]float32{"f": {0.3, 0.9}, "g": {-0.6, 0.6}}}); err != nil {
			c.Failf("mv", "UpsertMultiVector: %v", err)
		}
		for f, v := range map[string][]float32{"f": {0.3, 0.9}, "g": {-0.6, 0.6}} {
			e.m.put(row{id: "old___" + f, vec: v, content: "mv", meta: map[string]string{"_entity_id": "old", "_vector_field": f}})
		}
		if err := e.s.CreateSession(bg, &core.Session{ID: "s_1", UserID: "u"}); err != nil {
			c.Failf("chat", "CreateSession: %v", err)
		}
		for i, t := range []string{"hello word", "second"} {
			if err := e.s.AddMessage(bg, &core.Message{ID: fmt.Sprint("m", i), SessionID: "s_1", Role: "user", Content: t, Vector: sv["p"]}); err != nil {
				c.Failf("chat", "AddMessage: %v", err)
			}
		}
		e.m.chat = map[string][]string{"s_1": {"m0 hello word", "m1 second"}}
		if e.cfg.IndexType == core.IndexTypeIVF {
			trainIVF(2).do(e)
		}
		return e
	}
}

// rop is a read; it returns a canonical rendering of its answer.
type rop struct {
	name string
	run  func(e *env) (any, error)
}

func embs(l []core.ScoredEmbedding, err error) (any, error) {
	var s []string
	for _, g := range l {
		s = append(s, fmt.Sprintf("%s:%.4f:%s", g.ID, g.Score, g.Content))
	}
	return s, err
}

func faultReads() []rop {
	q := []float32{0.9, 0.3}
	so := core.SearchOptions{TopK: 10}
	return []rop{
		{"GetByID", func(e *env) (any, error) { return e.s.GetByID(bg, "x") }},
		{"GetByDocID", func(e *env) (any, error) { return e.s.GetByDocID(bg, "d_1") }},
		{"GetDocumentsByType", func(e *env) (any, error) { return e.s.GetDocumentsByType(bg, "x") }},
		{"Stats", func(e *env) (any, error) {
			st, err := e.s.Stats(bg)
			return []any{st.Count, st.Dimensions}, err // the size is best effort
		}},
		{"ListCollections", func(e *env) (any, error) {
			l, err := e.s.ListCollections(bg)
			var n []string
			for _, x := range l {
				n = append(n, x.Name)
			}
			sort.Strings(n)
			return n, err
		}},
		{"GetCollection", func(e *env) (any, error) { return e.s.GetCollection(bg, "c_1") }},
		{"GetCollectionStats", func(e *env) (any, error) {
			s, err := e.s.GetCollectionStats(bg, "c_1")
			if err != nil {
				return nil, err
			}
			return []any{s.Count, s.Dimensions, s.Name}, nil
		}},
		{"ListDocuments", func(e *env) (any, error) { return e.s.ListDocuments(bg) }},
		{"ListDocumentsWithInfo", func(e *env) (any, error) { return e.s.ListDocumentsWithInfo(bg) }},
		{"ListDocumentsWithFilter", func(e *env) (any, error) { return e.s.ListDocumentsWithFilter(bg, "", 10) }},
		{"GetDocument", func(e *env) (any, error) { return e.s.GetDocument(bg, "d_1") }},
		{"Search", func(e *env) (any, error) { return embs(e.s.Search(bg, q, so)) }},
		{"SearchColl", func(e *env) (any, error) {
			return embs(e.s.Search(bg, q, core.SearchOptions{TopK: 5, Collection: "c_1"}))
		}},
		{"SearchWithFilter", func(e *env) (any, error) {
			return embs(e.s.SearchWithFilter(bg, q, so, map[string]interface{}{"type": "x"}))
		}},
		{"AdvancedFilter", func(e *env) (any, error) {
			return embs(e.s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: so, PreFilter: core.NewMetadataFilter().Equal("type", "x").Build()}))
		}},
		{"ACL", func(e *env) (any, error) { return embs(e.s.SearchWithACL(bg, q, []string{"u1"}, so)) }},
		{"Range", func(e *env) (any, error) { return embs(e.s.RangeSearch(bg, q, 0.9, so)) }},
		{"Facets", func(e *env) (any, error) {
			l, _, err := e.s.SearchWithFacets(bg, q, core.FacetedSearchOptions{SearchOptions: so, ReturnFacets: true, Facets: map[string]core.FacetFilter{"type": {Type: core.FilterTypeEquals, Values: []interface{}{"x"}}}})
			return embs(l, err) // counts are best effort
		}},
		{"Aggregate", func(e *env) (any, error) {
			return e.s.Aggregate(bg, core.AggregationRequest{Type: core.AggregationSum, Field: "n"})
		}},
		{"AggregateGroup", func(e *env) (any, error) {
			r, err := e.s.Aggregate(bg, core.AggregationRequest{Type: core.AggregationGroupBy, Field: "n", GroupBy: []string{"type"}})
			return r, err
		}},
		{"GetSession", func(e *env) (any, error) { return e.s.GetSession(bg, "s_1") }},
		{"History", func(e *env) (any, error) { return e.s.GetSessionHistory(bg, "s_1", 10) }},
		{"SearchChat", func(e *env) (any, error) { return e.s.SearchChatHistory(bg, q, "s_1", 10) }},
		{"KeywordMessages", func(e *env) (any, error) { return e.s.KeywordSearchMessages(bg, "word", "u", "", 10) }},
		{"MessagesByUser", func(e *env) (any, error) { return e.s.SearchMessagesByUser(bg, "u", q, "", 10) }},
		{"GetMultiVector", func(e *env) (any, error) { return e.s.GetMultiVectorEntity(bg, "old") }},
		{"SearchMultiVector", func(e *env) (any, error) {
			return embs(e.s.SearchMultiVector(bg, map[string][]float32{"f": q, "g": q}, core.MultiVectorSearchOptions{SearchOptions: so, Aggregation: core.AggregateSum}))
		}},
		{"Dump", func(e *env) (any, error) {
			var b bytes.Buffer
			_, err := e.s.Dump(bg, &b, core.DumpOptions{Format: core.DumpFormatJSONL, IncludeVectors: true})
			l := strings.Split(b.String(), "\n")
			sort.Strings(l)
			return l, err
		}},
		{"Negatives", func(e *env) (any, error) {
			return embs(e.s.SearchWithNegatives(bg, core.NegativeSearchOptions{PositiveVectors: [][]float32{q}, NegativeVectors: [][]float32{{-1, 0}}, NegativeWeight: 0.3, SearchOptions: so}))
		}},
		{"Recommend", func(e *env) (any, error) { return embs(e.s.RecommendSimilar(bg, []string{"x"}, []string{"z"}, so)) }},
		{"Anomalies", func(e *env) (any, error) { return embs(e.s.FindAnomalies(bg, so)) }},
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C04", Rule: "every write and read operation, with a storage error injected at each of its storage events in turn (once, and from there on), per index configuration, and opening the store likewise; afterwards the rows and searches must show the state before a failed write or after a successful one, also after a restart; a read must answer exactly or report the error",
		Run: func(w *vk.W) {
			hn := func(c *core.Config) { c.HNSW.Enabled = true }
			iv := func(c *core.Config) {
				c.IndexType = core.IndexTypeIVF
				c.IVF.Enabled = true
				c.IVF.NCentroids = 2
				c.IVF.NProbe = 2
			}
			for _, ct := range []cfgT{{"plain", 2, nil}, {"hnsw", 2, hn}, {"ivf", 2, iv}} {
				mk := faultEnv(ct)
				for _, o := range faultOps() {
					// one operation before, so that faults also hit changed stores
					pre := []wop{{"", nil, nil}}
					if w.Thorough() {
						pre = append(pre, faultOps()...)
					} else {
						pre = append(pre, faultOps()[1], faultOps()[3], faultOps()[8])
					}
					for _, p := range pre {
						o, p := o, p
						w.Case("write/"+ct.name+"|"+p.name+"|"+o.name, func(c *vk.C) {
							defer vsql.SetHook(nil)
							c.Defer(coins(1))
							eachFault(c, 60, func(ft *fault) bool {
								e := mk(c)
								if p.run != nil {
									if p.run(e) == nil {
										p.apply(e.m)
									}
								}
								before := e.m.clone()
								ft.arm()
								err := o.run(e)
								vsql.SetHook(nil)
								what := fmt.Sprintf("%s with event %d failing (%s, from there on: %v) returned %v", o.name, ft.k, ft.at, ft.sticky, err)
								c.Logf("%s", what)
								if err == nil {
									o.apply(e.m)
								}
								if !ft.fired {
									e.s.Close()
									e.s = nil
									return false
								}
								c.Trans(1)
								c.State(e.m.String())
								look := func(when string) {
									sig, msg := c.Try(func() {
										e.observeRows(faultUniverse)
										e.observeSearch(queries[:2], refCos, []int{1, 3})
										observeChat(e)
									})
									if sig != "" {
										kind := "failed-write-visible:"
										if err == nil {
											kind = "acknowledged-write-lost:"
										}
										c.Failf(kind+o.name, "%s, %s: %s (state before: %s)", what, when, msg, before)
									}
								}
								look("afterwards")
								opUpsert("", row{id: "b", vec: sv["q"], content: "later"}).do(e)
								look("after a later write")
								e.reopen()
								look("after a restart")
								e.s.Close()
								e.s = nil
								return true
							})
						})
					}
				}
				for _, auto := range []bool{false, true} {
					for _, o := range append([]wop{{"", nil, nil}}, faultOps()...) {
						auto, o := auto, o
						if o.name != "" && !w.Thorough() && auto {
							continue
						}
						w.Case(fmt.Sprintf("open/%s|%v|%s", ct.name, auto, o.name), func(c *vk.C) {
							defer vsql.SetHook(nil)
							c.Defer(coins(1))
							e := mk(c)
							if o.run != nil {
								if o.run(e) == nil {
									o.apply(e.m)
								}
							}
							if err := e.s.Close(); err != nil {
								c.Failf("close", "%v", err)
							}
							cfg := e.cfg
							if auto {
								cfg.VectorDim = 0 // the dimension is read from the rows
							}
							eachFault(c, 120, func(ft *fault) bool {
								s, err := core.NewWithConfig(cfg)
								if err != nil {
									c.Failf("open", "NewWithConfig: %v", err)
								}
								ft.arm()
								err = s.Init(bg)
								vsql.SetHook(nil)
								c.Trans(1)
								if err != nil && ft.fired {
									s.Close()
									return true
								}
								if err != nil {
									c.Failf("open", "Init: %v", err)
								}
								e.s = s
								what := fmt.Sprintf("Init with event %d failing (%s, from there on: %v) reports success", ft.k, ft.at, ft.sticky)
								if sig, msg := c.Try(func() {
									e.observeRows(faultUniverse)
									e.observeSearch(queries[:2], refCos, []int{1, 3})
									observeChat(e)
								}); sig != "" {
									c.Failf("open-fault", "%s, but: %s", what, msg)
								}
								s.Close()
								e.s = nil
								return true
							})
							// and nothing of it stays
							e.open()
							e.observeRows(faultUniverse)
							e.observeSearch(queries[:2], refCos, []int{1, 3})
							e.s.Close()
							e.s = nil
						})
					}
				}
				for _, r := range faultReads() {
					r := r
					w.Case("read/"+ct.name+"|"+r.name, func(c *vk.C) {
						defer vsql.SetHook(nil)
						c.Defer(coins(1))
						e := mk(c)
						ref, err := r.run(e)
						if err != nil {
							c.Failf("read-error:"+r.name, "%s without a fault: %v", r.name, err)
						}
						want, _ := json.Marshal(ref)
						c.Outcome(string(want))
						eachFault(c, 200, func(ft *fault) bool {
							ft.arm()
							g, err := r.run(e)
							vsql.SetHook(nil)
							c.Trans(1)
							if err == nil {
								got, _ := json.Marshal(g)
								if !bytes.Equal(got, want) {
									c.Failf("silent-partial-read:"+r.name, "%s with event %d failing (%s, sticky %v) reports success with %s, the answer is %s", r.name, ft.k, ft.at, ft.sticky, got, want)
								}
							}
							if ft.fired && errors.Is(err, core.ErrNotFound) {
								c.Failf("fault-as-notfound:"+r.name, "%s with event %d failing (%s) says the row does not exist: %v", r.name, ft.k, ft.at, err)
							}
							if !ft.fired {
								return false
							}
							g, err = r.run(e)
							if got, _ := json.Marshal(g); err != nil || !bytes.Equal(got, want) {
								c.Failf("read-after-fault:"+r.name, "%s after a fault at event %d (%s): %s %v, want %s", r.name, ft.k, ft.at, got, err, want)
							}
							return true
						})
					})
				}
			}
		}})
}
