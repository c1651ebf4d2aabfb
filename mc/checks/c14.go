package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

func copClose() cop {
	return cop{name: "CLOSE", run: func(s *core.SQLiteStore) string { return outcome(s.Close()) }, apply: func(*model) string { return "ok" }}
}

type storeCall struct {
	name string
	run  func(s *core.SQLiteStore, dir string) error
}

// storeCalls is every public operation of a store that can fail.
func storeCalls() []storeCall {
	q := []float32{1, 0.5}
	so := core.SearchOptions{TopK: 3}
	emb := func(id string) *core.Embedding { return &core.Embedding{ID: id, Vector: []float32{1, 2}, Content: "x"} }
	mk := func(n string, f func(s *core.SQLiteStore) error) storeCall {
		return storeCall{n, func(s *core.SQLiteStore, _ string) error { return f(s) }}
	}
	drain := func(ch <-chan core.StreamingResult) error {
		n := 0
		for {
			select {
			case _, ok := <-ch:
				if !ok {
					if n == 0 {
						return errors.New("empty stream")
					}
					return nil
				}
				n++
			case <-time.After(20 * time.Second):
				return errors.New("HANG: stream never ends")
			}
		}
	}
	return []storeCall{
		mk("Upsert", func(s *core.SQLiteStore) error { return s.Upsert(bg, emb("n")) }),
		mk("UpsertBatch", func(s *core.SQLiteStore) error { return s.UpsertBatch(bg, []*core.Embedding{emb("n")}) }),
		mk("Delete", func(s *core.SQLiteStore) error { return s.Delete(bg, "a") }),
		mk("DeleteBatch", func(s *core.SQLiteStore) error { return s.DeleteBatch(bg, []string{"a", "b"}) }),
		mk("DeleteByDocID", func(s *core.SQLiteStore) error { return s.DeleteByDocID(bg, "d_1") }),
		mk("DeleteByFilter", func(s *core.SQLiteStore) error {
			return s.DeleteByFilter(bg, core.NewMetadataFilter().Equal("type", "x"))
		}),
		mk("Clear", func(s *core.SQLiteStore) error { return s.Clear(bg) }),
		mk("ClearByDocID", func(s *core.SQLiteStore) error { return s.ClearByDocID(bg, []string{"d_1"}) }),
		mk("CreateCollection", func(s *core.SQLiteStore) error { _, err := s.CreateCollection(bg, "c9", 2); return err }),
		mk("DeleteCollection", func(s *core.SQLiteStore) error { return s.DeleteCollection(bg, "c_1") }),
		mk("GetCollection", func(s *core.SQLiteStore) error { _, err := s.GetCollection(bg, "c_1"); return err }),
		mk("ListCollections", func(s *core.SQLiteStore) error { _, err := s.ListCollections(bg); return err }),
		mk("GetCollectionStats", func(s *core.SQLiteStore) error { _, err := s.GetCollectionStats(bg, "c_1"); return err }),
		mk("CreateDocument", func(s *core.SQLiteStore) error { return s.CreateDocument(bg, toDoc(docRow{id: "d9", title: "T"})) }),
		mk("UpdateDocument", func(s *core.SQLiteStore) error {
			return s.UpdateDocument(bg, toDoc(docRow{id: "d_1", title: "T9", version: 2}))
		}),
		mk("DeleteDocument", func(s *core.SQLiteStore) error { return s.DeleteDocument(bg, "d_1") }),
		mk("GetDocument", func(s *core.SQLiteStore) error { _, err := s.GetDocument(bg, "d_1"); return err }),
		mk("ListDocuments", func(s *core.SQLiteStore) error { _, err := s.ListDocuments(bg); return err }),
		mk("ListDocumentsWithFilter", func(s *core.SQLiteStore) error { _, err := s.ListDocumentsWithFilter(bg, "", 5); return err }),
		mk("ListDocumentsWithInfo", func(s *core.SQLiteStore) error { _, err := s.ListDocumentsWithInfo(bg); return err }),
		mk("GetDocumentsByType", func(s *core.SQLiteStore) error { _, err := s.GetDocumentsByType(bg, "x"); return err }),
		mk("GetByID", func(s *core.SQLiteStore) error { _, err := s.GetByID(bg, "a"); return err }),
		mk("GetByDocID", func(s *core.SQLiteStore) error { _, err := s.GetByDocID(bg, "d_1"); return err }),
		mk("Stats", func(s *core.SQLiteStore) error { _, err := s.Stats(bg); return err }),
		mk("CreateSession", func(s *core.SQLiteStore) error { return s.CreateSession(bg, &core.Session{ID: "s9", UserID: "u"}) }),
		mk("GetSession", func(s *core.SQLiteStore) error { _, err := s.GetSession(bg, "s_1"); return err }),
		mk("AddMessage", func(s *core.SQLiteStore) error {
			return s.AddMessage(bg, &core.Message{ID: "m9", SessionID: "s_1", Role: "user", Content: "x"})
		}),
		mk("GetSessionHistory", func(s *core.SQLiteStore) error { _, err := s.GetSessionHistory(bg, "s_1", 5); return err }),
		mk("SearchChatHistory", func(s *core.SQLiteStore) error { _, err := s.SearchChatHistory(bg, q, "s_1", 5); return err }),
		mk("SearchMessagesByUser", func(s *core.SQLiteStore) error { _, err := s.SearchMessagesByUser(bg, "u", q, "", 5); return err }),
		mk("KeywordSearchMessages", func(s *core.SQLiteStore) error {
			_, err := s.KeywordSearchMessages(bg, "hello", "u", "", 5)
			return err
		}),
		mk("Search", func(s *core.SQLiteStore) error { _, err := s.Search(bg, q, so); return err }),
		mk("SearchWithFilter", func(s *core.SQLiteStore) error {
			_, err := s.SearchWithFilter(bg, q, so, map[string]interface{}{"type": "x"})
			return err
		}),
		mk("SearchWithAdvancedFilter", func(s *core.SQLiteStore) error {
			_, err := s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: so})
			return err
		}),
		mk("SearchWithACL", func(s *core.SQLiteStore) error { _, err := s.SearchWithACL(bg, q, []string{"u"}, so); return err }),
		mk("HybridSearch", func(s *core.SQLiteStore) error {
			_, err := s.HybridSearch(bg, q, "a", core.HybridSearchOptions{SearchOptions: so})
			return err
		}),
		mk("RangeSearch", func(s *core.SQLiteStore) error { _, err := s.RangeSearch(bg, q, 2, so); return err }),
		mk("BatchRangeSearch", func(s *core.SQLiteStore) error { _, err := s.BatchRangeSearch(bg, [][]float32{q}, 2, so); return err }),
		mk("SearchWithFacets", func(s *core.SQLiteStore) error {
			_, _, err := s.SearchWithFacets(bg, q, core.FacetedSearchOptions{SearchOptions: so})
			return err
		}),
		mk("SearchWithDiversity", func(s *core.SQLiteStore) error {
			_, err := s.SearchWithDiversity(bg, q, core.DiversitySearchOptions{SearchOptions: so, Lambda: 0.5})
			return err
		}),
		mk("SearchWithNegatives", func(s *core.SQLiteStore) error {
			_, err := s.SearchWithNegatives(bg, core.NegativeSearchOptions{SearchOptions: so, PositiveVectors: [][]float32{q}, NegativeVectors: [][]float32{{0, 1}}, NegativeWeight: 0.5})
			return err
		}),
		mk("SearchWithReranker", func(s *core.SQLiteStore) error {
			_, err := s.SearchWithReranker(bg, q, "a", core.NewKeywordMatchReranker(0.5), core.RerankOptions{TopK: 3})
			return err
		}),
		mk("SearchMultiVector", func(s *core.SQLiteStore) error {
			_, err := s.SearchMultiVector(bg, map[string][]float32{"f": q}, core.MultiVectorSearchOptions{SearchOptions: so})
			return err
		}),
		mk("RecommendSimilar", func(s *core.SQLiteStore) error { _, err := s.RecommendSimilar(bg, []string{"a"}, nil, so); return err }),
		mk("FindAnomalies", func(s *core.SQLiteStore) error { _, err := s.FindAnomalies(bg, so); return err }),
		mk("Aggregate", func(s *core.SQLiteStore) error {
			_, err := s.Aggregate(bg, core.AggregationRequest{Type: core.AggregationCount})
			return err
		}),
		mk("StreamSearch", func(s *core.SQLiteStore) error {
			ch, err := s.StreamSearch(bg, q, core.StreamingOptions{SearchOptions: so, BatchSize: 2})
			if err != nil {
				return err
			}
			return drain(ch)
		}),
		mk("ParallelStreamSearch", func(s *core.SQLiteStore) error {
			chs, err := s.ParallelStreamSearch(bg, [][]float32{q, q}, core.StreamingOptions{SearchOptions: so, BatchSize: 2})
			if err != nil {
				return err
			}
			for _, ch := range chs {
				if err := drain(ch); err != nil {
					return err
				}
			}
			return nil
		}),
		mk("UpsertMultiVector", func(s *core.SQLiteStore) error {
			return s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "mv9", Vectors: map[string][]float32{"f": {1, 2}}})
		}),
		mk("GetMultiVectorEntity", func(s *core.SQLiteStore) error { _, err := s.GetMultiVectorEntity(bg, "mv1"); return err }),
		mk("DeleteMultiVectorEntity", func(s *core.SQLiteStore) error { return s.DeleteMultiVectorEntity(bg, "mv1") }),
		mk("Dump", func(s *core.SQLiteStore) error {
			_, err := s.Dump(bg, &bytes.Buffer{}, core.DumpOptions{Format: core.DumpFormatJSON, IncludeVectors: true})
			return err
		}),
		mk("Load", func(s *core.SQLiteStore) error {
			_, err := s.Load(bg, strings.NewReader(`{"id":"n","vector":[1,2],"content":"x"}`+"\n"), core.LoadOptions{Format: core.DumpFormatJSONL})
			return err
		}),
		{"DumpToFile", func(s *core.SQLiteStore, dir string) error {
			_, err := s.DumpToFile(bg, filepath.Join(dir, "dump.json"), core.DumpOptions{Format: core.DumpFormatJSON, IncludeVectors: true})
			return err
		}},
		{"Backup", func(s *core.SQLiteStore, dir string) error { return s.Backup(bg, filepath.Join(dir, "backup.db")) }},
		{"ExportIndex", func(s *core.SQLiteStore, dir string) error { return s.ExportIndex(bg, filepath.Join(dir, "index")) }},
		{"ImportIndex", func(s *core.SQLiteStore, dir string) error { return s.ImportIndex(bg, filepath.Join(dir, "index")) }},
		mk("TrainIndex", func(s *core.SQLiteStore) error { return s.TrainIndex(bg, 2) }),
		mk("Init", func(s *core.SQLiteStore) error { return s.Init(bg) }),
	}
}

func prepClosed(e *env, ct cfgT) {
	opCreateColl("c_1", 2).do(e)
	opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
	opBatch("", row{id: "a", vec: sv["p"], content: "a", meta: map[string]string{"type": "x"}}, row{id: "b", coll: "c_1", doc: "d_1", vec: sv["q"], content: "b"}, row{id: "d", vec: sv["s"], content: "d"}).do(e)
	if strings.HasPrefix(ct.name, "ivf") {
		trainIVF(2).do(e)
	}
	must := func(err error) {
		if err != nil {
			e.c.Failf("setup", "%v", err)
		}
	}
	must(e.s.CreateSession(bg, &core.Session{ID: "s_1", UserID: "u"}))
	must(e.s.AddMessage(bg, &core.Message{ID: "m1", SessionID: "s_1", Role: "user", Content: "hello", Vector: []float32{1, 0}}))
}

func c14seq(c *vk.C, ct cfgT, sc storeCall) {
	c.Defer(coins(1))
	e := newEnv(c, ct)
	prepClosed(e, ct)
	before := e.m.String()
	// ending the store twice, then using it
	for i := 0; i < 2; i++ {
		if err := e.s.Close(); err != nil {
			c.Failf("close", "Close %d: %v", i+1, err)
		}
	}
	dir := c.Dir()
	// files of earlier exports, which a refused call must leave alone
	files := func() string {
		l, err := os.ReadDir(dir)
		if err != nil {
			c.Failf("setup", "%v", err)
		}
		out := ""
		for _, f := range l {
			if strings.Contains(f.Name(), ".db") && f.Name() != "backup.db" {
				continue // the store's own
			}
			b, err := os.ReadFile(filepath.Join(dir, f.Name()))
			if err != nil {
				c.Failf("setup", "%v", err)
			}
			out += fmt.Sprintf("%s: %q\n", f.Name(), b)
		}
		return out
	}
	for i := 0; i < 2; i++ {
		if i == 1 {
			for _, n := range []string{"dump.json", "backup.db", "index"} {
				if err := os.WriteFile(filepath.Join(dir, n), []byte("earlier "+n), 0o600); err != nil {
					c.Failf("setup", "%v", err)
				}
			}
		}
		had := files()
		var err error
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("PANIC: %v", p)
				}
			}()
			err = sc.run(e.s, dir)
		}()
		select {
		case <-done:
		case <-time.After(25 * time.Second):
			c.Failf("hang", "%s on a closed store does not return", sc.name)
		}
		if err == nil {
			c.Failf("accepted", "%s succeeds on a closed store", sc.name)
		}
		if strings.HasPrefix(err.Error(), "PANIC") || strings.HasPrefix(err.Error(), "HANG") {
			c.Failf("panic", "%s on a closed store: %v", sc.name, err)
		}
		if got := files(); got != had {
			c.Failf("files", "%s on a closed store is refused, but the files beside it were\n%sand are\n%s", sc.name, had, got)
		}
		c.Outcome(sc.name + ": closed=" + fmt.Sprint(errors.Is(err, core.ErrStoreClosed)))
		c.Trans(1)
		if err := e.s.Close(); err != nil {
			c.Failf("close", "Close after %s: %v", sc.name, err)
		}
	}
	e.open()
	fin, err := snapshot(e.s, 2)
	if err != nil {
		c.Failf("snapshot", "%v", err)
	}
	if fin.String() != before {
		c.Failf("effect", "%s on a closed store changes the file: %s, was %s", sc.name, fin, before)
	}
	e.observeSearch(queries, refCos, []int{1, 3})
	if h, err := e.s.GetSessionHistory(bg, "s_1", 5); err != nil || len(h) != 1 {
		c.Failf("effect", "chat history after %s: %v %v", sc.name, h, err)
	}
	c.State(fin.String() + sc.name)
}

func init() {
	vk.Register(&vk.Check{ID: "C14", Rule: "every public store operation after Close (refused, no panic, no hang, no effect, Close repeatable, reopened store intact), and every operation, pair of operations in one thread, and pair of threads run concurrently with one or two Close calls: every schedule up to the preemption bound; each operation either has its whole effect or is refused as closed without effect, and the reopened store shows exactly the acknowledged writes with its indexes in step",
		Run: func(w *vk.W) {
			cfgs := concCfgs()
			for _, ct := range cfgs {
				for _, sc := range storeCalls() {
					ct, sc := ct, sc
					w.Case(fmt.Sprintf("seq|%s|%s", ct.name, sc.name), func(c *vk.C) { c14seq(c, ct, sc) })
				}
			}
			ops := cops()
			ops = append(ops, copClose())
			cl := copClose()
			for _, ct := range cfgs {
				for i := range ops {
					i, ct := i, ct
					bound := w.Pick(3, 5)
					w.Case(fmt.Sprintf("conc|%s|%s||CLOSE|b%d", ct.name, ops[i].name, bound), func(c *vk.C) {
						concurrent(c, ct, [][]cop{{ops[i]}, {cl}}, bound, true)
					})
					w.Case(fmt.Sprintf("after|%s|CLOSE,%s|b0", ct.name, ops[i].name), func(c *vk.C) {
						concurrent(c, ct, [][]cop{{cl, ops[i]}}, 0, true)
					})
				}
			}
			for _, ct := range cfgs {
				for i := range ops {
					for j := range ops {
						i, j, ct := i, j, ct
						if !w.Thorough() && (i*7+j)%3 != 0 && ct.name != "hnsw" {
							continue
						}
						bound := w.Pick(1, 2)
						w.Case(fmt.Sprintf("conc2|%s|%s,%s||CLOSE|b%d", ct.name, ops[i].name, ops[j].name, bound), func(c *vk.C) {
							concurrent(c, ct, [][]cop{{ops[i], ops[j]}, {cl}}, bound, true)
						})
						if j >= i && w.Thorough() {
							w.Case(fmt.Sprintf("conc3|%s|%s||%s||CLOSE|b%d", ct.name, ops[i].name, ops[j].name, bound), func(c *vk.C) {
								concurrent(c, ct, [][]cop{{ops[i]}, {ops[j]}, {cl}}, bound, true)
							})
						}
					}
				}
			}
		}})
}
