package checks

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

type txt struct {
	text, coll string
	meta       map[string]string
}

type textEnv struct {
	c    *vk.C
	db   *cortexdb.DB
	emb  *wordEmbedder
	path string
	idx  core.IndexType
	m    map[string]txt
	err  error
}

type textOp struct {
	name string
	do   func(e *textEnv)
}

func (e *textEnv) end(what string, err error, bad bool) bool {
	e.err = err
	if errors.Is(err, cortexdb.ErrEmbeddingFailed) && e.emb != nil && e.emb.fail > 0 {
		return false
	}
	if (err != nil) != (bad || e.emb == nil && !strings.HasPrefix(what, "Quick.Add(")) {
		e.c.Failf("outcome", "%s: %v", what, err)
	}
	return err == nil
}

func textOps() []textOp {
	ins := func(id, text string, meta map[string]string) textOp {
		return textOp{fmt.Sprintf("I(%s,%s)", id, text), func(e *textEnv) {
			if e.end("InsertText", e.db.InsertText(bg, id, text, meta), text == "" || id == "") {
				e.m[id] = txt{text, "", meta}
			}
		}}
	}
	batch := func(texts map[string]string, meta map[string]string) textOp {
		var l []string
		for k, v := range texts {
			l = append(l, k+"="+v)
		}
		return textOp{"B(" + setOf(l) + ")", func(e *textEnv) {
			if e.end("InsertTextBatch", e.db.InsertTextBatch(bg, texts, meta), false) {
				for k, v := range texts {
					if v != "" {
						e.m[k] = txt{v, "", meta}
					}
				}
			}
		}}
	}
	quick := func(coll, text string) textOp {
		return textOp{fmt.Sprintf("Q(%s,%s)", coll, text), func(e *textEnv) {
			var id string
			var err error
			if coll == "" {
				id, err = e.db.Quick().AddText(bg, text, map[string]string{"q": "1"})
			} else {
				id, err = e.db.Quick().AddTextToCollection(bg, coll, text, map[string]string{"q": "1"})
			}
			if e.end("Quick.AddText", err, false) {
				if _, ok := e.m[id]; ok || id == "" {
					e.c.Failf("id", "generated id %q is taken", id)
				}
				e.m[id] = txt{text, coll, map[string]string{"q": "1"}}
			}
		}}
	}
	return []textOp{
		ins("a", "apple pear", map[string]string{"k": "v"}),
		ins("a", "kiwi", nil),
		ins("b", "apple apple plum", nil),
		ins("b", "", nil),
		batch(map[string]string{"a": "plum quince", "c": "apple"}, map[string]string{"b": "1"}),
		batch(map[string]string{"d": "zeus", "e": ""}, nil),
		batch(map[string]string{"a": "pear", "d": "pear", "e": "Pear", "D": "pear "}, nil),
		quick("", "apple kiwi"),
		quick("col", "apple"),
		{"V", func(e *textEnv) {
			v := (&wordEmbedder{vocab: kVocab}).vec("pear pear")
			id, err := e.db.Quick().Add(bg, v, "pear pear")
			if e.end("Quick.Add(", err, false) {
				e.m[id] = txt{"pear pear", "", nil}
			}
		}},
		{"D", func(e *textEnv) {
			if _, ok := e.m["a"]; ok {
				if err := e.db.Vector().Delete(bg, "a"); err != nil {
					e.c.Failf("delete", "%v", err)
				}
				delete(e.m, "a")
			}
		}},
		{"R", func(e *textEnv) {
			if err := e.db.Close(); err != nil {
				e.c.Failf("close", "%v", err)
			}
			e.db = openCortex(e.c, e.path, e.emb, e.idx)
		}},
	}
}

func newTextEnv(c *vk.C, sem bool, idx core.IndexType) *textEnv {
	e := &textEnv{c: c, path: newCortexPath(c), idx: idx, m: map[string]txt{}}
	if sem {
		e.emb = &wordEmbedder{vocab: kVocab}
		e.db = openCortex(c, e.path, e.emb, idx)
	} else {
		cfg := cortexdb.DefaultConfig(e.path)
		cfg.IndexType = idx
		db, err := cortexdb.Open(cfg)
		if err != nil {
			c.Failf("open", "%v", err)
		}
		e.db = db
	}
	c.Defer(func() { e.db.Close() })
	if _, err := e.db.Vector().(*core.SQLiteStore).CreateCollection(bg, "col", len(kVocab)+1); err != nil {
		c.Failf("collection", "%v", err)
	}
	return e
}

func (e *textEnv) hits(what string, l []core.ScoredEmbedding, err error, coll string, k int) []string {
	if err != nil {
		e.c.Failf("search", "%s: %v", what, err)
	}
	var out []string
	seen := map[string]bool{}
	for i, h := range l {
		w, ok := e.m[h.ID]
		if !ok || seen[h.ID] || h.Content != w.text || coll != "" && w.coll != coll {
			e.c.Failf("hit", "%s returned %s %q (known %v); stored %v", what, h.ID, h.Content, ok, e.m)
		}
		if i > 0 && h.Score > l[i-1].Score+eps {
			e.c.Failf("hit", "%s: out of order", what)
		}
		seen[h.ID] = true
		out = append(out, h.ID)
	}
	if len(l) > k {
		e.c.Failf("hit", "%s returned %d results", what, len(l))
	}
	return out
}

// stored compares what is stored with the model.
func (e *textEnv) stored() {
	c := e.c
	st, err := e.db.Vector().Stats(bg)
	if err != nil || int(st.Count) != len(e.m) {
		c.Failf("count", "the store holds %d items (%v), want %v", st.Count, err, e.m)
	}
	for id, w := range e.m {
		g, err := e.db.Vector().(*core.SQLiteStore).GetByID(bg, id)
		if err != nil || g.Content != w.text || metaStr(g.Metadata) != metaStr(w.meta) || w.coll != "" && g.Collection != w.coll {
			c.Failf("stored", "%s is %+v (%v), want %+v", id, g, err, w)
		}
		if e.emb != nil && fmt.Sprint(g.Vector) != fmt.Sprint(e.emb.vec(w.text)) {
			c.Failf("stored", "%s has vector %v, want %v", id, g.Vector, e.emb.vec(w.text))
		}
	}
}

func (e *textEnv) observe() {
	c := e.c
	e.stored()
	n := map[string]int{"": len(e.m)}
	for _, w := range e.m {
		if w.coll != "" {
			n[w.coll]++
		}
	}
	for _, q := range []string{"apple", "kiwi plum"} {
		for _, k := range []int{1, 2, 10} {
			if e.emb == nil {
				if _, err := e.db.SearchText(bg, q, k); !errors.Is(err, cortexdb.ErrEmbedderNotConfigured) {
					c.Failf("no embedder", "SearchText: %v", err)
				}
				if _, err := e.db.HybridSearchText(bg, q, k); !errors.Is(err, cortexdb.ErrEmbedderNotConfigured) {
					c.Failf("no embedder", "HybridSearchText: %v", err)
				}
			} else {
				for _, coll := range []string{"", "col"} {
					if coll == "col" && n["col"] == 0 {
						continue
					}
					what := fmt.Sprintf("SearchText(%q, %s, %d)", q, coll, k)
					l, err := e.db.SearchTextInCollection(bg, coll, q, k)
					got := e.hits(what, l, err, coll, k)
					if len(got) != min(k, n[coll]) {
						c.Failf("search", "%s returned %v of %v", what, got, e.m)
					}
					v, err := e.db.Vector().Search(bg, e.emb.vec(q), core.SearchOptions{Collection: coll, TopK: k, QueryText: q})
					if err != nil || scoreStr2(v) != scoreStr2(l) {
						c.Failf("search", "%s gives %s, the vector search of its embedding %s (%v)", what, scoreStr2(l), scoreStr2(v), err)
					}
					if coll == "" {
						l2, err := e.db.Quick().SearchText(bg, q, k)
						e.hits("Quick.SearchText", l2, err, "", k)
						if scoreStr2(l2) != scoreStr2(l) {
							c.Failf("search", "Quick.SearchText gives %s, SearchText %s", scoreStr2(l2), scoreStr2(l))
						}
					}
				}
				l, err := e.db.HybridSearchText(bg, q, k)
				e.hits("HybridSearchText", l, err, "", k)
				v, err := e.db.Vector().(*core.SQLiteStore).HybridSearch(bg, e.emb.vec(q), q, core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: k}})
				if err != nil || scoreStr2(v) != scoreStr2(l) {
					c.Failf("search", "HybridSearchText(%q, %d) gives %s, HybridSearch %s (%v)", q, k, scoreStr2(l), scoreStr2(v), err)
				}
			}
			// words
			what := fmt.Sprintf("SearchTextOnly(%q, %d)", q, k)
			l, err := e.db.SearchTextOnly(bg, q, cortexdb.TextSearchOptions{TopK: k})
			got := e.hits(what, l, err, "", k)
			want := 0
			for id, w := range e.m {
				all := true
				for _, x := range strings.Fields(q) {
					all = all && has(strings.Fields(w.text), x)
				}
				if all {
					want++
				} else if has(got, id) {
					c.Failf("words", "%s returned %q", what, w.text)
				}
			}
			if len(got) != min(k, want) {
				c.Failf("words", "%s returned %v of %v", what, got, e.m)
			}
			l, err = e.db.Quick().SearchTextOnly(bg, q, k)
			if g2 := e.hits("Quick.SearchTextOnly", l, err, "", k); setOf(g2) != setOf(got) && k == 10 {
				c.Failf("words", "Quick.SearchTextOnly(%q) returned %v, SearchTextOnly %v", q, g2, got)
			}
		}
	}
	if e.emb != nil {
		if _, err := e.db.SearchText(bg, "", 3); !errors.Is(err, cortexdb.ErrEmptyText) {
			c.Failf("empty", "SearchText of nothing: %v", err)
		}
		if _, err := e.db.HybridSearchText(bg, "", 3); !errors.Is(err, cortexdb.ErrEmptyText) {
			c.Failf("empty", "HybridSearchText of nothing: %v", err)
		}
	}
	if _, err := e.db.SearchTextOnly(bg, "", cortexdb.TextSearchOptions{}); !errors.Is(err, cortexdb.ErrEmptyText) {
		c.Failf("empty", "SearchTextOnly of nothing: %v", err)
	}
}

// textBatches inserts batches of every size up to 45, with awkward texts and
// metadata.
func textBatches(c *vk.C, n int) {
	e := newTextEnv(c, true, core.IndexTypeFlat)
	texts := map[string]string{}
	for i := 0; i < n; i++ {
		texts[fmt.Sprintf("t%d", i)] = []string{"apple " + fmt.Sprint(i), " ", "\n\t", "apple apple plum", "x", " kiwi ", ""}[i%7]
	}
	for _, meta := range []map[string]string{nil, {"doc_id": "nosuch", "collection": "col", "id": "z"}} {
		if err := e.db.InsertTextBatch(bg, texts, meta); err != nil {
			c.Failf("batch", "InsertTextBatch of %d texts with %v: %v", n, meta, err)
		}
		for k, v := range texts {
			if v != "" {
				e.m[k] = txt{v, "", meta}
			}
		}
		c.Trans(1)
		e.stored()
		for k := range e.m {
			g, err := e.db.Vector().(*core.SQLiteStore).GetByID(bg, k)
			if err != nil || g.DocID != "" || g.Collection != "" && g.Collection != "default" {
				c.Failf("stored", "%s is stored as %+v (%v)", k, g, err)
			}
		}
	}
	c.State(fmt.Sprint(n))
}

func scoreStr2(l []core.ScoredEmbedding) string {
	var out []string
	for _, h := range l {
		out = append(out, fmt.Sprintf("%s:%.5f", h.ID, h.Score))
	}
	// equal scores may come in any order
	sort.Strings(out)
	return strings.Join(out, " ")
}

func init() {
	vk.Register(&vk.Check{ID: "C33", Rule: "every sequence of up to 3 (thorough 4) text operations out of 11 (inserts, replacements, batches, quick adds, deletions, reopening) with an embedder under each index type and without one, then all text searches; batches of every size up to 45 with blank texts and metadata that names fields; an embedder failing at every call",
		Assumptions: []string{"the vector search underneath is checked by C02 and C05"},
		Run: func(w *vk.W) {
			ops := textOps()
			var names []string
			for _, o := range ops {
				names = append(names, o.name)
			}
			for _, x := range []struct {
				sem bool
				idx core.IndexType
			}{{true, core.IndexTypeFlat}, {true, core.IndexTypeHNSW}, {true, core.IndexTypeIVF}, {false, core.IndexTypeFlat}} {
				x := x
				for d := 1; d <= w.Pick(3, 4); d++ {
					seqsOf(w, fmt.Sprintf("seq%v%d", x.sem, x.idx), names, d, func(c *vk.C, seq []int) {
						e := newTextEnv(c, x.sem, x.idx)
						for _, i := range seq {
							ops[i].do(e)
							c.Trans(1)
						}
						var l []string
						for id, t := range e.m {
							if len(id) > 2 {
								id = "*"
							}
							l = append(l, fmt.Sprint(id, t))
						}
						c.State(setOf(l))
						e.observe()
					})
				}
			}
			for n := 0; n <= 45; n++ {
				n := n
				w.Case(fmt.Sprintf("batch|%d", n), func(c *vk.C) { textBatches(c, n) })
			}
			for i := range ops {
				for j := range ops {
					i, j := i, j
					if ops[i].name == "R" || ops[j].name == "R" {
						continue
					}
					w.Case(fmt.Sprintf("embed|%s,%s", ops[i].name, ops[j].name), func(c *vk.C) {
						e := newTextEnv(c, true, core.IndexTypeFlat)
						ops[i].do(e)
						e.emb.fail = e.emb.calls + 1
						ops[j].do(e)
						e.emb.fail = 0
						e.observe()
						ops[j].do(e)
						e.observe()
					})
				}
			}
		}})
}
