package checks

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsync"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vtime"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
	"github.com/liliang-cn/cortexdb/v2/pkg/geo"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
	"github.com/liliang-cn/cortexdb/v2/pkg/hindsight"
	"github.com/liliang-cn/cortexdb/v2/pkg/index"
	"github.com/liliang-cn/cortexdb/v2/pkg/quantization"
	router "github.com/liliang-cn/cortexdb/v2/pkg/semantic-router"
)

// sop is one operation of an object shared by several goroutines.
type sop struct {
	name string
	run  func()
}

// shared makes a fresh object and its operations; done ends it.
type shared struct {
	name string
	mk   func(c *vk.C) (ops []sop, done func())
}

// raceLog returns what the race detector wrote since offset from.
func raceLog(from int64) (string, int64) {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if err != nil || int64(len(b)) < from {
				return "", from
			}
			return string(b[from:]), int64(len(b))
		}
	}
	return "", from
}

var raceFrame = regexp.MustCompile(`(?m)^  ([^\s].*)\(\)\n\s+(\S+)`)

// raceSites names the two functions of the first race of a report.
func raceSites(log string) string {
	var l []string
	for _, part := range strings.Split(log, "\n\n") {
		if !strings.Contains(part, " by ") || strings.Contains(part, "created at") {
			continue
		}
		for _, m := range raceFrame.FindAllStringSubmatch(part, -1) {
			if strings.Contains(m[1], "cortexdb") && !strings.Contains(m[1], "/vmc/") {
				l = append(l, m[1][strings.LastIndex(m[1], "/")+1:])
				break
			}
		}
		if len(l) == 2 {
			break
		}
	}
	sort.Strings(l)
	return strings.Join(l, " / ")
}

// raceRun lets operation i run up to each of its scheduling points in turn,
// then lets the operations js run (each in its own thread, those that have to
// wait for i wait), then finishes i. Only i is ever preempted: of two
// conflicting accesses without a common lock, stopping one thread right after
// its access leaves no release of it that the other could acquire.
func raceRun(c *vk.C, o shared, i int, js []int) {
	own := raceOnce(c, o, i, js, -1)
	c.Count("points", own)
	for stop := 0; stop < own; stop++ {
		if c.W.Stop() {
			c.W.Cut()
			return
		}
		raceOnce(c, o, i, js, stop)
	}
}

// raceOnce makes one run and returns how many points i had.
func raceOnce(c *vk.C, o shared, i int, js []int, stop int) int {
	ops, done := o.mk(c)
	var names []string
	var bodies []func()
	for _, j := range js {
		names = append(names, ops[j].name)
		bodies = append(bodies, ops[j].run)
	}
	names = append(names, "*"+ops[i].name)
	bodies = append(bodies, ops[i].run)
	prefix := []int{len(js)} // start with i
	if stop >= 0 {
		prefix = append(append(prefix, make([]int, stop)...), 1)
	}
	_, at := raceLog(0)
	before := vsync.Races()
	s := vsync.Run(prefix, false, 60000, names, bodies...)
	c.Count("schedules", 1)
	c.State(fmt.Sprint(o.name, i, js, stop))
	c.Trans(len(s.Trace))
	if s.Deadlock || s.Stuck || s.TooLong {
		c.Failf("deadlock", "%v stopped after %d points: no end: %v", names, stop, s.Blocked)
	}
	if len(s.Panics) > 0 {
		c.Failf("panic", "%v stopped after %d points: %s", names, stop, s.Panics[0])
	}
	if vsync.Races() > before {
		log, _ := raceLog(at)
		sites := raceSites(log)
		if len(log) > 5000 {
			log = log[:5000]
		}
		c.Failf("race|"+sites, "%s on %s, with %v at point %d: unsynchronised access of %s\n%s", ops[i].name, o.name, names, stop, sites, log)
	}
	done()
	own := 0
	for k, ch := range s.Trace {
		if k == 0 {
			continue
		}
		if ch.Options[0] != len(js) || len(ch.Cost) < 2 || ch.Cost[1] == 0 {
			break
		}
		own++
	}
	return own
}

func sharedObjects() []shared {
	var out []shared
	add := func(name string, mk func(c *vk.C) ([]sop, func())) { out = append(out, shared{name, mk}) }
	no := func() {}
	v := func(x, y float32) []float32 { return []float32{x, y} }
	q := v(1, 0.5)
	must := func(c *vk.C, err error) {
		if err != nil {
			c.Fatal("setup: %v", err)
		}
	}
	nth := 0
	path := func(c *vk.C) string { nth++; return filepath.Join(c.Dir(), fmt.Sprintf("r%d.db", nth)) }

	// ---- indexes
	cos := index.CosineDistance
	pts := map[string][]float32{"a": v(1, 0), "b": v(0, 1), "c": v(1, 1), "d": v(-1, 2)}
	ids := []string{"a", "b", "c", "d"}
	add("flat index", func(c *vk.C) ([]sop, func()) {
		x := index.NewFlatIndex(2, cos)
		for _, id := range ids {
			must(c, x.Insert(id, pts[id]))
		}
		return []sop{
			{"insert e", func() { x.Insert("e", v(3, 1)) }}, {"insert a", func() { x.Insert("a", v(3, 2)) }}, {"search", func() { x.Search(q, 3) }},
			{"range", func() { x.RangeSearch(q, 1) }}, {"size", func() { x.Size() }}, {"get", func() {
				if g, ok := x.GetVector("a"); ok {
					_ = g[0]
				}
			}},
			{"batch", func() { x.BatchInsert([]string{"f", "a"}, [][]float32{v(1, 2), v(2, 1)}) }}, {"stats", func() { x.Stats() }},
			{"delete", func() { x.Delete("a") }}, {"clear", func() { x.Clear() }},
		}, no
	})
	for _, quant := range []bool{false, true} {
		quant := quant
		name := "HNSW index"
		if quant {
			name += " with codes"
		}
		add(name, func(c *vk.C) ([]sop, func()) {
			x := index.NewHNSW(4, 8, cos)
			var sq *quantization.ScalarQuantizer
			if quant {
				var err error
				sq, err = quantization.NewScalarQuantizer(2, 8)
				must(c, err)
				must(c, sq.Train([][]float32{v(-3, -3), v(3, 3)}))
				x.SetQuantizer(sq)
			}
			for _, id := range ids {
				must(c, x.Insert(id, pts[id]))
			}
			var saved strings.Builder
			must(c, x.Save(&saved))
			type item = struct {
				ID     string
				Vector []float32
			}
			l := []sop{
				{"insert e", func() { x.Insert("e", v(3, 1)) }}, {"insert a", func() { x.Insert("a", v(3, 2)) }}, {"upsert b", func() { x.Upsert("b", v(3, 2)) }},
				{"search", func() { x.Search(q, 3, 8) }}, {"searchvi", func() { x.SearchVectorIndex(q, 3) }}, {"size", func() { x.Size() }}, {"stats", func() { x.Stats() }},
				{"save", func() { var b strings.Builder; x.Save(&b) }}, {"load", func() { x.Load(strings.NewReader(saved.String())) }},
				{"delete", func() { x.Delete("a") }}, {"batch", func() { x.InsertBatch([]item{{"f", v(1, 3)}, {"g", v(2, 3)}}) }},
			}
			if quant {
				l = append(l, sop{"quantizer", func() { x.SetQuantizer(sq) }})
			}
			return l, no
		})
	}
	add("IVF index", func(c *vk.C) ([]sop, func()) {
		x := index.NewIVFIndex(2, 2)
		tr := [][]float32{v(1, 0), v(0, 1), v(1, 1), v(-1, 2)}
		must(c, x.Train(tr))
		for _, id := range ids {
			must(c, x.Add(id, pts[id]))
		}
		var saved strings.Builder
		must(c, x.Save(&saved))
		return []sop{
			{"add e", func() { x.Add("e", v(3, 1)) }}, {"add a", func() { x.Add("a", v(3, 2)) }}, {"search", func() { x.Search(q, 3) }}, {"nprobe", func() { x.SetNProbe(2) }},
			{"size", func() { x.Size() }}, {"stats", func() { x.Stats() }}, {"save", func() { var b strings.Builder; x.Save(&b) }},
			{"load", func() { x.Load(strings.NewReader(saved.String())) }}, {"train", func() { x.Train(tr) }}, {"delete", func() { x.Delete("a") }}, {"clear", func() { x.Clear() }},
		}, no
	})
	add("LSH index", func(c *vk.C) ([]sop, func()) {
		x := index.NewLSHIndex(index.LSHConfig{NumTables: 2, NumHashFuncs: 2, Dimension: 2, Seed: 1})
		for _, id := range ids {
			must(c, x.Insert(id, pts[id]))
		}
		return []sop{
			{"insert e", func() { x.Insert("e", v(3, 1)) }}, {"insert a", func() { x.Insert("a", v(3, 2)) }}, {"search", func() { x.Search(q, 3) }}, {"probe", func() { x.SearchWithMultiProbe(q, 3, 2) }},
			{"size", func() { x.Size() }}, {"stats", func() { x.Stats() }}, {"distance", func() { x.SetDistanceFunc(cos) }}, {"delete", func() { x.Delete("a") }}, {"clear", func() { x.Clear() }},
		}, no
	})
	for _, par := range []bool{false, true} {
		par := par
		add(fmt.Sprintf("multi index parallel=%v", par), func(c *vk.C) ([]sop, func()) {
			x := index.NewMultiIndex(index.MultiIndexConfig{PrimaryIndex: index.IndexTypeHNSW, SecondaryIndices: []index.IndexType{index.IndexTypeFlat}, CombineStrategy: index.StrategyMergeAll, Parallel: par})
			x.AddIndex(index.IndexTypeHNSW, index.NewHNSWAdapter(2, 4, cos))
			x.AddIndex(index.IndexTypeFlat, flatAsIndex{index.NewFlatIndex(2, cos)})
			for _, id := range ids {
				must(c, x.Insert(id, pts[id]))
			}
			return []sop{
				{"insert e", func() { x.Insert("e", v(3, 1)) }}, {"insert a", func() { x.Insert("a", v(3, 2)) }}, {"search", func() { x.Search(q, 3) }}, {"size", func() { x.Size() }}, {"stats", func() { x.Stats() }},
				{"add index", func() { x.AddIndex(index.IndexTypeHybrid, index.NewHNSWAdapter(2, 4, cos)) }}, {"delete", func() { x.Delete("a") }},
			}, no
		})
	}
	add("hybrid index", func(c *vk.C) ([]sop, func()) {
		x := index.NewHybridIndex(2, 4, 2)
		tr := [][]float32{v(1, 0), v(0, 1), v(1, 1), v(-1, 2)}
		must(c, x.Train(tr))
		for _, id := range ids {
			must(c, x.Insert(id, pts[id]))
		}
		return []sop{
			{"insert e", func() { x.Insert("e", v(3, 1)) }}, {"insert a", func() { x.Insert("a", v(3, 2)) }}, {"search", func() { x.Search(q, 3) }}, {"size", func() { x.Size() }}, {"alpha", func() { x.SetAlpha(0.3) }},
			{"train", func() { x.Train(tr) }}, {"delete", func() { x.Delete("a") }},
		}, no
	})
	add("geo index", func(c *vk.C) ([]sop, func()) {
		x := geo.NewGeoIndex()
		at := func(a, b float64) geo.Coordinate { return geo.Coordinate{Lat: a, Lng: b} }
		for i, id := range ids {
			must(c, x.Insert(geo.GeoPoint{ID: id, Coordinate: at(float64(i), float64(i))}))
		}
		return []sop{
			{"insert e", func() { x.Insert(geo.GeoPoint{ID: "e", Coordinate: at(1, 2)}) }}, {"insert a", func() { x.Insert(geo.GeoPoint{ID: "a", Coordinate: at(1, 2)}) }},
			{"radius", func() { x.SearchRadius(at(0, 0), 500, geo.Kilometers) }}, {"knn", func() { x.SearchKNN(at(0, 0), 2) }},
			{"box", func() {
				x.SearchBoundingBox(geo.BoundingBox{MinLat: -1, MinLng: -1, MaxLat: 3, MaxLng: 3})
			}},
			{"polygon", func() { x.SearchPolygon([]geo.Coordinate{at(-1, -1), at(-1, 3), at(3, 3), at(3, -1)}) }},
			{"size", func() { x.Size() }}, {"get", func() {
				if p, ok := x.GetPoint("a"); ok {
					_ = p.Coordinate
				}
			}},
			{"delete", func() { x.Delete("a") }}, {"clear", func() { x.Clear() }},
		}, no
	})
	// ---- router
	for _, mode := range []string{"cached", "hnsw"} {
		mode := mode
		add("router "+mode, func(c *vk.C) ([]sop, func()) {
			e := &rEnv{c: c, mode: mode, sim: "cos", th: 0.5, emb: &angleEmbedder{}, m: map[string]rModel{}, path: path(c)}
			e.open()
			must(c, e.r.Add(rRoute("a", nil, "a10")))
			must(c, e.r.Add(rRoute("b", nil, "a100")))
			r := e.r
			return []sop{
				{"add c", func() { r.Add(rRoute("c", nil, "a200")) }}, {"add a", func() { r.Add(rRoute("a", nil, "a20")) }}, {"batch", func() { r.AddBatch([]*router.Route{rRoute("d", nil, "a250"), rRoute("b", nil, "a90")}) }},
				{"route", func() { r.Route(bg, "a12") }}, {"routes", func() { r.RouteBatch(bg, []string{"a12", "a99"}) }}, {"list", func() { r.List() }},
				{"get", func() {
					if g := r.Get("a"); g != nil {
						_ = g.Utterances
					}
				}}, {"stats", func() { r.Stats() }}, {"remove", func() { r.Remove("a") }},
			}, e.close
		})
	}
	for enc := 0; enc < 3; enc++ {
		enc := enc
		mkEnc := func() router.SparseEncoder {
			switch enc {
			case 1:
				return router.NewBM25Encoder()
			case 2:
				return router.NewTFIDFEncoderWithSublinearTF()
			}
			return router.NewTFIDFEncoder()
		}
		add(fmt.Sprintf("hybrid router %d", enc), func(c *vk.C) ([]sop, func()) {
			h, err := router.NewHybridRouter(&angleEmbedder{}, mkEnc())
			must(c, err)
			must(c, h.Add(rRoute("w", nil, "a200"), &router.SparseRoute{Name: "w", Utterances: []string{"weather today"}}))
			return []sop{
				{"add", func() { h.Add(rRoute("x", nil, "a20"), &router.SparseRoute{Name: "x", Utterances: []string{"sun"}}) }},
				{"again", func() { h.Add(rRoute("w", nil, "a30"), &router.SparseRoute{Name: "w", Utterances: []string{"rain"}}) }},
				{"batch", func() {
					h.AddBatch([]*router.Route{rRoute("y", nil, "a250")}, []*router.SparseRoute{{Name: "y", Utterances: []string{"snow"}}})
				}},
				{"route", func() { h.Route(bg, "weather") }}, {"routes", func() { h.RouteBatch(bg, []string{"weather", "sun"}) }},
				{"list", func() { h.List() }}, {"alpha", func() { h.SetAlpha(0.3) }}, {"getalpha", func() { h.GetAlpha() }}, {"stats", func() { h.Stats() }},
			}, no
		})
		add(fmt.Sprintf("sparse router and encoder %d", enc), func(c *vk.C) ([]sop, func()) {
			e := mkEnc()
			r, err := router.NewSparseRouter(e)
			must(c, err)
			must(c, r.Add(&router.SparseRoute{Name: "w", Utterances: []string{"weather today"}}))
			l := []sop{
				{"add", func() { r.Add(&router.SparseRoute{Name: "x", Utterances: []string{"sun"}}) }}, {"route", func() { r.Route(bg, "weather") }}, {"list", func() { r.List() }},
				{"encode", func() { e.EncodeSparse("sun and rain") }}, {"encodes", func() { e.EncodeSparseBatch([]string{"sun", "rain"}) }},
				{"dims", func() { e.Dimensions() }}, {"vocabulary", func() { e.Vocabulary() }},
			}
			if f, ok := e.(interface {
				Fit(ctx context.Context, documents []string) error
			}); ok {
				l = append(l, sop{"fit", func() { f.Fit(bg, []string{"one two", "two three"}) }})
			}
			return l, no
		})
	}
	add("cached embedder", func(c *vk.C) ([]sop, func()) {
		x := router.NewCachedEmbedder(&angleEmbedder{})
		x.Embed(bg, "a1")
		return []sop{
			{"embed", func() { x.Embed(bg, "a1") }}, {"embed2", func() { x.Embed(bg, "a2") }}, {"batch", func() { x.EmbedBatch(bg, []string{"a1", "a3"}) }},
			{"size", func() { x.CacheSize() }}, {"dims", func() { x.Dimensions() }}, {"clear", func() { x.ClearCache() }},
		}, no
	})
	add("hybrid embedder", func(c *vk.C) ([]sop, func()) {
		x := router.NewHybridEmbedder(&angleEmbedder{}, router.NewBM25Encoder())
		return []sop{
			{"embed", func() { x.Embed(bg, "a1") }}, {"batch", func() { x.EmbedBatch(bg, []string{"a1", "a3"}) }}, {"sparse", func() { x.EncodeSparse("sun") }}, {"sparses", func() { x.EncodeSparseBatch([]string{"sun"}) }},
			{"alpha", func() { x.SetAlpha(0.4) }}, {"getalpha", func() { x.GetAlpha() }}, {"dims", func() { x.Dimensions() }},
		}, no
	})
	// ---- graph
	for _, hnsw := range []bool{false, true} {
		hnsw := hnsw
		name := "graph"
		if hnsw {
			name = "graph with HNSW"
		}
		add(name, func(c *vk.C) ([]sop, func()) {
			e := &genv{c: c, path: path(c), m: newGModel(), hnsw: hnsw}
			e.open()
			g := e.g
			n := func(id string, vec []float32) *graph.GraphNode {
				return &graph.GraphNode{ID: id, Vector: vec, Content: id, NodeType: "T"}
			}
			ed := func(id, a, b string) *graph.GraphEdge {
				return &graph.GraphEdge{ID: id, FromNodeID: a, ToNodeID: b, EdgeType: "K", Weight: 1}
			}
			for _, id := range ids {
				must(c, g.UpsertNode(bg, n(id, pts[id])))
			}
			must(c, g.UpsertEdge(bg, ed("e1", "a", "b")))
			must(c, g.UpsertEdge(bg, ed("e2", "b", "c")))
			var js strings.Builder
			must(c, g.ExportJSON(bg, &js))
			l := []sop{
				{"node", func() { g.UpsertNode(bg, n("e", v(2, 1))) }}, {"node a", func() { g.UpsertNode(bg, n("a", v(2, 1))) }}, {"nodes", func() { g.UpsertNodesBatch(bg, []*graph.GraphNode{n("f", v(2, 1)), n("b", v(5, 1))}) }},
				{"get", func() { g.GetNode(bg, "a") }}, {"edge", func() { g.UpsertEdge(bg, ed("e3", "c", "a")) }}, {"edges", func() { g.GetEdges(bg, "a", "both") }},
				{"execute", func() {
					g.ExecuteBatch(bg, &graph.BatchGraphOperation{NodeUpserts: []*graph.GraphNode{n("g", v(2, 1))}, EdgeUpserts: []*graph.GraphEdge{ed("e4", "b", "a")}, NodeDeletes: []string{"d"}})
				}},
				{"enable", func() { g.EnableHNSWIndex(2) }},
				{"search", func() {
					g.HybridSearch(bg, &graph.HybridQuery{Vector: q, TopK: 3, Weights: graph.HybridWeights{VectorWeight: 1}})
				}},
				{"start", func() {
					g.HybridSearch(bg, &graph.HybridQuery{Vector: q, StartNodeID: "a", TopK: 3, Weights: graph.HybridWeights{VectorWeight: 1, GraphWeight: 1}})
				}},
				{"gvs", func() { g.GraphVectorSearch(bg, "a", q, graph.TraversalOptions{MaxDepth: 2}) }}, {"similar", func() { g.SimilarityInGraph(bg, "a", core.SearchOptions{TopK: 2}) }},
				{"neighbors", func() { g.Neighbors(bg, "a", graph.TraversalOptions{MaxDepth: 2}) }}, {"path", func() { g.ShortestPath(bg, "a", "c") }},
				{"pagerank", func() { g.PageRank(bg, 3, 0.85) }}, {"communities", func() { g.CommunityDetection(bg) }}, {"predict", func() { g.PredictEdges(bg, "a", 2) }}, {"statistics", func() { g.GetGraphStatistics(bg) }},
				{"export", func() { var b strings.Builder; g.ExportJSON(bg, &b) }}, {"import", func() { g.ImportJSON(bg, strings.NewReader(js.String())) }},
				{"delete edge", func() { g.DeleteEdge(bg, "e1") }}, {"delete", func() { g.DeleteNode(bg, "b") }}, {"deletes", func() { g.DeleteNodesBatch(bg, []string{"a", "c"}) }},
			}
			if hnsw {
				l = append(l, sop{"hnsw", func() { g.HNSWSearch(bg, q, 2, 0) }}, sop{"hybrid hnsw", func() {
					g.HNSWHybridSearch(bg, &graph.HybridQuery{Vector: q, StartNodeID: "a", TopK: 2, Weights: graph.HybridWeights{VectorWeight: 1, GraphWeight: 1}})
				}})
			}
			return l, func() { e.s.Close() }
		})
	}
	// ---- database
	add("database", func(c *vk.C) ([]sop, func()) {
		emb := &wordEmbedder{vocab: kVocab}
		db := openCortex(c, path(c), emb, core.IndexTypeHNSW)
		must(c, db.InsertText(bg, "t1", "apple pear", nil))
		_, err := db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: "m1", UserID: "u", Content: "apple"})
		must(c, err)
		_, err = db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: "k1", Title: "T", Content: "Zeus likes plum. Hera likes kiwi."})
		must(c, err)
		tb := db.GraphRAGTools()
		qk := db.Quick()
		return []sop{
			{"insert", func() { db.InsertText(bg, "t2", "plum kiwi", nil) }}, {"batch", func() { db.InsertTextBatch(bg, map[string]string{"t3": "pear", "t1": "kiwi"}, nil) }},
			{"search", func() { db.SearchText(bg, "apple", 2) }}, {"hybrid", func() { db.HybridSearchText(bg, "apple", 2) }}, {"only", func() { db.SearchTextOnly(bg, "apple", cortexdb.TextSearchOptions{TopK: 2}) }},
			{"info", func() { db.Info() }}, {"has", func() { db.HasEmbedder() }}, {"quick", func() { qk.AddText(bg, "quince", nil) }},
			{"save memory", func() { db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: "m2", UserID: "u", Content: "pear"}) }}, {"save memory again", func() { db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: "m1", UserID: "u", Content: "plum"}) }},
			{"get memory", func() { db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: "m1"}) }}, {"search memory", func() { db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "apple", UserID: "u", TopK: 3}) }},
			{"save knowledge", func() {
				db.SaveKnowledge(bg, cortexdb.KnowledgeSaveRequest{KnowledgeID: "k2", Title: "T", Content: "Ares likes quince."})
			}},
			{"get knowledge", func() { db.GetKnowledge(bg, cortexdb.KnowledgeGetRequest{KnowledgeID: "k1"}) }}, {"search knowledge", func() { db.SearchKnowledge(bg, cortexdb.KnowledgeSearchRequest{Query: "plum", TopK: 3}) }},
			{"rag", func() { db.SearchGraphRAG(bg, "Zeus plum", cortexdb.GraphRAGQueryOptions{TopK: 3}) }}, {"entities", func() {
				tb.UpsertEntities(bg, cortexdb.ToolUpsertEntitiesRequest{Entities: []cortexdb.ToolEntityInput{{Name: "Athena"}}})
			}},
			{"tools", func() { tb.Definitions() }}, {"delete memory", func() { db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: "m1"}) }},
			{"delete knowledge", func() { db.DeleteKnowledge(bg, cortexdb.KnowledgeDeleteRequest{KnowledgeID: "k1"}) }}, {"close", func() { db.Close() }},
		}, func() { db.Close() }
	})
	// ---- hindsight
	add("memory banks", func(c *vk.C) ([]sop, func()) {
		e := &hEnv{c: c, path: path(c), coll: "memories", m: map[string]hmem{}}
		e.open()
		s := e.s
		must(c, s.CreateBank(bg, hindsight.NewBank("b1", "B")))
		must(c, s.CreateSession(bg, &core.Session{ID: "s1", UserID: "u"}))
		ext := func(_ context.Context, b string, ms []*core.Message) ([]hindsight.ExtractedFact, error) {
			return []hindsight.ExtractedFact{{ID: "f", Content: "fact", Vector: hUnit(5)}}, nil
		}
		rer := func(_ context.Context, _ string, l []*hindsight.RecallResult) ([]*hindsight.RecallResult, error) {
			return l, nil
		}
		s.SetFactExtractor(ext)
		s.SetAutoRetain(&hindsight.AutoRetainConfig{Enabled: true, WindowSize: 4, TriggerEvery: 1})
		mem := func(id string) *hindsight.Memory {
			return &hindsight.Memory{ID: id, BankID: "b1", Type: hindsight.WorldMemory, Content: "Zeus likes tea", Vector: hUnit(20), Entities: []string{"Zeus"}}
		}
		must(c, s.Retain(bg, mem("m1")))
		all := &hindsight.RecallStrategy{Memory: true, Priming: true, Entity: []string{"Zeus"}, TopK: 5}
		return []sop{
			{"retain", func() { s.Retain(bg, mem("m2")) }}, {"again", func() { s.Retain(bg, mem("m1")) }},
			{"recall", func() {
				s.Recall(bg, &hindsight.RecallRequest{BankID: "b1", Query: "tea", QueryVector: hUnit(1), Strategy: all})
			}},
			{"bank", func() { s.CreateBank(bg, hindsight.NewBank("b2", "B2")) }}, {"bank again", func() { s.CreateBank(bg, hindsight.NewBank("b1", "B3")) }},
			{"get", func() {
				if b, ok := s.GetBank("b1"); ok {
					_ = *b
				}
			}},
			{"list", func() {
				for _, b := range s.ListBanks() {
					_ = *b
				}
			}},
			{"facts", func() { s.RetainFromText(bg, "b1", []*core.Message{{ID: "x", Content: "hello"}}) }},
			{"message", func() { s.AddMessage(bg, "b1", &core.Message{ID: "1", SessionID: "s1", Role: "user", Content: "c"}) }},
			{"message 2", func() { s.AddMessage(bg, "b1", &core.Message{ID: "2", SessionID: "s1", Role: "user", Content: "d"}) }},
			{"extractor", func() { s.SetFactExtractor(ext) }}, {"reranker", func() { s.SetReranker(rer) }}, {"auto", func() { s.SetAutoRetain(&hindsight.AutoRetainConfig{Enabled: true, WindowSize: 2, TriggerEvery: 2}) }},
			{"reflect", func() {
				s.Reflect(bg, &hindsight.ContextRequest{BankID: "b1", Query: "tea", QueryVector: hUnit(1), Strategy: all})
			}},
			{"observe", func() { s.Observe(bg, &hindsight.ReflectRequest{BankID: "b1", Query: "tea", QueryVector: hUnit(1)}) }},
			{"observations", func() { s.GetObservations(bg, "b1") }}, {"delete bank", func() { s.DeleteBank("b1") }}, {"close", func() { s.Close() }},
		}, func() { s.Close() }
	})
	// ---- store
	cfgs := append(concCfgs(), cfgT{"hnsw-q", 2, func(c *core.Config) {
		c.HNSW.Enabled = true
		c.Quantization.Enabled = true
		c.Quantization.Type = "scalar"
		c.Quantization.NBits = 8
	}})
	for k, ct := range cfgs {
		m := ct.mutate
		cfgs[k].mutate = func(c *core.Config) {
			if m != nil {
				m(c)
			}
			c.AutoSave.Enabled = true
			c.AutoSave.Interval = 3600e9
		}
	}
	// nothing stored, dimension known or not, quantizer untrained
	for _, d := range []int{0, 2} {
		cfgs = append(cfgs, cfgT{fmt.Sprintf("empty%d", d), d, cfgs[3].mutate})
	}
	for _, ct := range cfgs {
		ct := ct
		add("store "+ct.name, func(c *vk.C) ([]sop, func()) {
			vtime.Manual(true)
			e := newEnv(c, ct)
			nth++
			if !strings.HasPrefix(ct.name, "empty") {
				prepClosed(e, ct)
			}
			s := e.s
			if !strings.HasPrefix(ct.name, "empty") {
				must(c, s.UpsertMultiVector(bg, &core.MultiVectorEntity{ID: "mv1", Vectors: map[string][]float32{"f": {1, 2}}}))
			}
			idx := filepath.Join(c.Dir(), fmt.Sprintf("index%d", nth))
			s.ExportIndex(bg, idx)
			var l, last []sop
			for _, sc := range storeCalls() {
				sc := sc
				switch sc.name {
				case "StreamSearch", "ParallelStreamSearch": // wait on channels
					continue
				case "ExportIndex":
					l = append(l, sop{sc.name, func() { s.ExportIndex(bg, idx+"x") }})
				case "ImportIndex":
					l = append(l, sop{sc.name, func() { s.ImportIndex(bg, idx) }})
				case "DumpToFile", "Backup":
					f := filepath.Join(c.Dir(), fmt.Sprintf("%s%d", sc.name, nth))
					if sc.name == "Backup" {
						l = append(l, sop{sc.name, func() { s.Backup(bg, f) }})
					} else {
						l = append(l, sop{sc.name, func() {
							s.DumpToFile(bg, f, core.DumpOptions{Format: core.DumpFormatJSON, IncludeVectors: true})
						}})
					}
				case "Clear":
					last = append(last, sop{sc.name, func() { sc.run(s, "") }})
				default:
					l = append(l, sop{sc.name, func() { sc.run(s, "") }})
				}
			}
			l = append(l, sop{"SetLogger", func() { s.SetLogger(core.NopLogger()) }}, sop{"SetAutoDimAdapt", func() { s.SetAutoDimAdapt(core.StrictMode) }}, sop{"GetDB", func() { s.GetDB() }},
				sop{"GetSimilarityFunc", func() { s.GetSimilarityFunc() }}, sop{"Config", func() { s.Config() }}, sop{"TrainQuantizer", func() { s.TrainQuantizer(bg) }}, sop{"IncrementChanges", func() { s.IncrementChanges() }}, sop{"autosave", func() { vtime.Expire() }})
			l = append(append(l, last...), sop{"Close", func() { s.Close() }})
			return l, func() { s.Close() }
		})
	}
	return out
}

type flatAsIndex struct{ *index.FlatIndex }

func (f flatAsIndex) Delete(id string) error { f.FlatIndex.Delete(id); return nil }

func init() {
	vk.Register(&vk.Check{ID: "C34",
		Rule: "every pair of operations of every shared object (store, graph, database, memory banks, routers, encoders, indexes): the first is stopped after each of its lock and storage calls in turn while the second runs, under a scheduler whose own ordering the race detector cannot see; no two accesses to the same memory may be unordered by the object's own synchronisation, and nothing deadlocks or panics",
		Assumptions: []string{
			"a pair of racing accesses needs at most one preemption, unless each thread holds a lock the other wants before its access",
			"operations that hand results over through channels (streaming) are left out; so are background goroutines the object starts on its own",
		},
		Run: func(w *vk.W) {
			for _, o := range sharedObjects() {
				o := o
				n := 0
				w.Prepare(func(c *vk.C) {
					ops, done := o.mk(c)
					n = len(ops)
					done()
				})
				chunk := 8
				for i := 0; i < n; i++ {
					for at := 0; at < n; at += chunk {
						var js []int
						for j := at; j < n && j < at+chunk; j++ {
							js = append(js, j)
						}
						i, js := i, js
						w.Case(fmt.Sprintf("%s|%d|%d", o.name, i, at), func(c *vk.C) { raceRun(c, o, i, js) })
					}
				}
			}
		}})
}
