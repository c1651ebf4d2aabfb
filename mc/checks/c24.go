package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsync"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	router "github.com/liliang-cn/cortexdb/v2/pkg/semantic-router"
)

// angleEmbedder maps "a30*2" to the vector of length 2 at 30 degrees; any other
// text is hashed to an angle.
type angleEmbedder struct {
	mu    sync.Mutex
	calls int
	fail  int // the n-th call fails
	once  bool
}

func angleVec(text string) []float32 {
	var deg, l float64 = 0, 1
	if n, _ := fmt.Sscanf(text, "a%f*%f", &deg, &l); n == 0 {
		for _, r := range text {
			deg = math.Mod(deg*31+float64(r), 360)
		}
	}
	return []float32{float32(l * math.Cos(deg*math.Pi/180)), float32(l * math.Sin(deg*math.Pi/180)), 0.5}
}

func (a *angleEmbedder) tick() error {
	vsync.Point("embed")
	a.mu.Lock()
	defer a.mu.Unlock()
	a.calls++
	if a.fail > 0 && (a.calls == a.fail || !a.once && a.calls > a.fail) {
		return errEmbed
	}
	return nil
}

func (a *angleEmbedder) Embed(_ context.Context, text string) ([]float32, error) {
	if err := a.tick(); err != nil {
		return nil, err
	}
	return angleVec(text), nil
}

func (a *angleEmbedder) EmbedBatch(_ context.Context, texts []string) ([][]float32, error) {
	if err := a.tick(); err != nil {
		return nil, err
	}
	var out [][]float32
	for _, t := range texts {
		out = append(out, angleVec(t))
	}
	return out, nil
}

func (a *angleEmbedder) Dimensions() int { return 3 }

type rModel struct {
	utts []string
	meta map[string]string
}

type rEnv struct {
	c     *vk.C
	mode  string
	path  string
	emb   *angleEmbedder
	store *core.SQLiteStore
	r     *router.Router
	m     map[string]rModel
	sim   string
	th    float64
}

var rSims = map[string]struct {
	f  core.SimilarityFunc
	ok func(a, b []float32) float64
	th float64
}{
	"cos": {core.CosineSimilarity, refCos, 0.82},
	"dot": {core.DotProduct, refDot, 0.9},
	"l2":  {core.EuclideanDist, func(a, b []float32) float64 { return -refL2(a, b) }, -0.5},
}

func newREnv(c *vk.C, mode, sim string) *rEnv {
	e := &rEnv{c: c, mode: mode, sim: sim, th: rSims[sim].th, emb: &angleEmbedder{}, m: map[string]rModel{}, path: filepath.Join(c.Dir(), "r.db")}
	e.open()
	c.Defer(e.close)
	return e
}

func (e *rEnv) close() {
	if e.store != nil {
		e.store.Close()
	}
}

func (e *rEnv) open() {
	opts := []router.ConfigOption{router.WithSimilarityFunc(rSims[e.sim].f), router.WithThreshold(e.th), router.WithCacheEmbeddings(e.mode != "plain")}
	var err error
	switch e.mode {
	case "hnsw", "flat":
		cfg := core.DefaultConfig()
		cfg.Path = e.path
		cfg.VectorDim = 3
		cfg.IndexType = core.IndexTypeHNSW
		if e.mode == "flat" {
			cfg.IndexType = core.IndexTypeFlat
			cfg.HNSW.Enabled = false
		}
		if e.store, err = core.NewWithConfig(cfg); err == nil {
			err = e.store.Init(bg)
		}
		if err != nil {
			e.c.Failf("open", "%v", err)
		}
		e.r, err = router.NewRouterWithStore(e.store, e.emb, opts...)
	default:
		e.r, err = router.NewRouter(e.emb, opts...)
	}
	if err != nil {
		e.c.Failf("open", "%v", err)
	}
}

func (e *rEnv) reopen() {
	if e.store == nil {
		return
	}
	if err := e.store.Close(); err != nil {
		e.c.Failf("close", "%v", err)
	}
	e.open()
}

func (e *rEnv) String() string {
	var l []string
	for n, m := range e.m {
		l = append(l, fmt.Sprint(n, m.utts))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

var rQueries = []string{"a0", "a25", "a60*3", "a185", "a250", "other words", "Other Words", " other words", "a25"}

// want returns the best score and the routes that have it.
func (e *rEnv) want(q string) (float64, map[string]bool) {
	best := math.Inf(-1)
	sc := map[string]float64{}
	for n, m := range e.m {
		s := math.Inf(-1)
		for _, u := range m.utts {
			s = math.Max(s, rSims[e.sim].ok(angleVec(q), angleVec(u)))
		}
		sc[n] = s
		best = math.Max(best, s)
	}
	out := map[string]bool{}
	for n, s := range sc {
		if s > best-1e-5 {
			out[n] = true
		}
	}
	return best, out
}

func (e *rEnv) check(q string, r *router.RouteResult, err error) {
	c := e.c
	if err != nil {
		c.Failf("route", "Route(%q): %v", q, err)
	}
	if len(e.m) == 0 {
		if r.Matched || r.RouteName != "" {
			c.Failf("route", "Route(%q) without routes: %+v", q, *r)
		}
		return
	}
	best, names := e.want(q)
	if math.Abs(r.Score-best) > 1e-4 {
		c.Failf("score", "Route(%q) scores %v, want %v (routes %s)", q, r.Score, best, e)
	}
	if math.Abs(best-e.th) > 1e-3 && r.Matched != (best >= e.th) {
		c.Failf("match", "Route(%q) with score %v and threshold %v: matched=%v", q, best, e.th, r.Matched)
	}
	if !names[r.RouteName] && (r.Matched || r.RouteName != "") {
		c.Failf("name", "Route(%q) is %s, want one of %v", q, r.RouteName, names)
	}
	if r.Matched && r.RouteName == "" {
		c.Failf("name", "Route(%q) matches without a name", q)
	}
}

func (e *rEnv) observe() {
	c := e.c
	var all []*router.RouteResult
	for _, q := range rQueries {
		r, err := e.r.Route(bg, q)
		e.check(q, r, err)
		all = append(all, r)
	}
	b, err := e.r.RouteBatch(bg, rQueries)
	if err != nil || len(b) != len(all) {
		c.Failf("batch", "RouteBatch: %d results, %v", len(b), err)
	}
	for i := range b {
		if b[i].RouteName != all[i].RouteName || b[i].Score != all[i].Score || b[i].Matched != all[i].Matched {
			c.Failf("batch", "RouteBatch gives %+v for %q, Route %+v", *b[i], rQueries[i], *all[i])
		}
	}
	var w []string
	n := 0
	for name, m := range e.m {
		w = append(w, name)
		n += len(m.utts)
		g := e.r.Get(name)
		if g == nil || !reflect.DeepEqual(g.Utterances, m.utts) || len(g.Metadata) != len(m.meta) || len(m.meta) > 0 && !reflect.DeepEqual(g.Metadata, m.meta) {
			c.Failf("get", "Get(%s) is %+v, added %v", name, g, m)
		}
	}
	if l := e.r.List(); setOf(l) != setOf(w) {
		c.Failf("list", "List is %v, want %v", l, w)
	}
	st := e.r.Stats()
	if st["route_count"] != len(e.m) || st["total_utterances"] != n {
		c.Failf("stats", "Stats: %v, want %d routes with %d utterances", st, len(e.m), n)
	}
	for _, n := range []string{"r_1", "R_1", "r3", "r4"} {
		if _, ok := e.m[n]; !ok && e.r.Get(n) != nil {
			c.Failf("get", "Get finds %s, which is not there", n)
		}
	}
}

func rRoute(name string, meta map[string]string, utts ...string) *router.Route {
	return &router.Route{Name: name, Utterances: append([]string(nil), utts...), Metadata: meta}
}

type routeOp struct {
	name   string
	routes []*router.Route // to add
	batch  bool
	remove string
	reopen bool
}

func (o routeOp) fresh() (l []*router.Route) {
	for _, r := range o.routes {
		if r == nil {
			l = append(l, nil)
		} else {
			l = append(l, &router.Route{Name: r.Name, Utterances: append([]string(nil), r.Utterances...), Metadata: r.Metadata})
		}
	}
	return
}

func (o routeOp) run(e *rEnv) error {
	switch {
	case o.reopen:
		e.reopen()
		return nil
	case o.remove != "":
		return e.r.Remove(o.remove)
	case o.batch:
		return e.r.AddBatch(o.fresh())
	}
	return e.r.Add(o.fresh()[0])
}

// legal says whether the model accepts the operation.
func (o routeOp) legal(e *rEnv) bool {
	if o.reopen {
		return true
	}
	if o.remove != "" {
		_, ok := e.m[o.remove]
		return ok
	}
	seen := map[string]bool{}
	for _, r := range o.routes {
		if r == nil || r.Name == "" || len(r.Utterances) == 0 || seen[r.Name] {
			return false
		}
		if _, ok := e.m[r.Name]; ok {
			return false
		}
		seen[r.Name] = true
	}
	return true
}

func (o routeOp) apply(e *rEnv) {
	if o.remove != "" {
		delete(e.m, o.remove)
	}
	for _, r := range o.routes {
		e.m[r.Name] = rModel{r.Utterances, r.Metadata}
	}
}

func rOps() []routeOp {
	return []routeOp{
		{name: "+r1", routes: []*router.Route{rRoute("r_1", map[string]string{"k": "v", "route_name": "x"}, "a0", "a40", "a10")}},
		{name: "+r2", routes: []*router.Route{rRoute("R_1", nil, "a90*2", "a200")}},
		{name: "+r2'", routes: []*router.Route{rRoute("R_1", nil, "a300")}},
		{name: "++r3,r4", batch: true, routes: []*router.Route{rRoute("r3", nil, "a120", "a120"), rRoute("r4", map[string]string{"é": "\""}, "a25", "a180*0.5")}},
		{name: "++r1,r3", batch: true, routes: []*router.Route{rRoute("r3", nil, "a5"), rRoute("r_1", nil, "a7")}},
		{name: "++r3,r3", batch: true, routes: []*router.Route{rRoute("r3", nil, "a5"), rRoute("r3", nil, "a7")}},
		{name: "++r4,empty", batch: true, routes: []*router.Route{rRoute("r4", nil, "a5"), rRoute("r3", nil)}},
		{name: "++r4,nil", batch: true, routes: []*router.Route{rRoute("r4", nil, "a5"), nil}},
		{name: "+unnamed", routes: []*router.Route{rRoute("", nil, "a5")}},
		{name: "-r1", remove: "r_1"},
		{name: "-r2", remove: "R_1"},
		{name: "-r3", remove: "r3"},
		{name: "reopen", reopen: true},
	}
}

func rSeqs(w *vk.W) {
	ops := rOps()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	for _, mode := range []string{"flat", "hnsw", "cached", "plain"} {
		for _, sim := range []string{"cos", "dot", "l2"} {
			mode, sim := mode, sim
			d := w.Pick(3, 4)
			if mode == "hnsw" && sim != "cos" {
				d--
			}
			seqsOf(w, "router|"+mode+"|"+sim, names, d, func(c *vk.C, seq []int) {
				e := newREnv(c, mode, sim)
				for _, i := range seq {
					err := ops[i].run(e)
					c.Trans(1)
					if ok := ops[i].legal(e); ok != (err == nil) {
						c.Failf("accept", "%s with routes %s: %v", ops[i].name, e, err)
					} else if ok {
						ops[i].apply(e)
					}
					c.State(e.String())
					e.observe()
				}
				e.reopen()
				e.observe()
			})
		}
	}
}

// rFaults: embedder and storage failures.
func rFaults(w *vk.W) {
	ops := rOps()
	pres := [][]int{{}, {0}, {1, 3}, {0, 1}}
	for _, mode := range []string{"cached", "plain", "flat", "hnsw"} {
		for pi, pre := range pres {
			for oi := range ops {
				mode, pre, oi := mode, pre, oi
				if ops[oi].reopen {
					continue
				}
				w.Case(fmt.Sprintf("embfault|%s|%d|%s", mode, pi, ops[oi].name), func(c *vk.C) {
					for _, once := range []bool{true, false} {
						for k := 1; k < 12; k++ {
							e := newREnv(c, mode, "cos")
							for _, i := range pre {
								if err := ops[i].run(e); err != nil {
									c.Failf("accept", "%v", err)
								}
								ops[i].apply(e)
							}
							e.emb.calls, e.emb.fail, e.emb.once = 0, k, once
							ok := ops[oi].legal(e)
							err := ops[oi].run(e)
							if err == nil && !ok {
								c.Failf("accept", "%s with routes %s succeeds", ops[oi].name, e)
							}
							if err == nil {
								ops[oi].apply(e)
							} else if ok && !errors.Is(err, errEmbed) {
								c.Failf("accept", "%s: %v", ops[oi].name, err)
							}
							// routing while the embedder is down reports it, or is right
							for _, q := range rQueries[:3] {
								r, err := e.r.Route(bg, q)
								if err == nil {
									e.check(q, r, nil)
								} else if !errors.Is(err, errEmbed) {
									c.Failf("route", "%v", err)
								}
							}
							n := e.emb.calls
							e.emb.fail = 0
							c.Count("faults", 1)
							e.observe()
							e.reopen()
							e.observe()
							e.close()
							if n < k {
								break
							}
						}
					}
				})
				if mode != "flat" && mode != "hnsw" {
					continue
				}
				w.Case(fmt.Sprintf("fault|%s|%d|%s", mode, pi, ops[oi].name), func(c *vk.C) {
					eachFault(c, 40, func(ft *fault) bool {
						e := newREnv(c, mode, "cos")
						for _, i := range pre {
							if err := ops[i].run(e); err != nil {
								c.Failf("accept", "%v", err)
							}
							ops[i].apply(e)
						}
						ok := ops[oi].legal(e)
						ft.arm()
						err := ops[oi].run(e)
						vsql.SetHook(nil)
						if err == nil && !ok || err != nil && ok && !ft.fired {
							c.Failf("accept", "%s with routes %s: %v", ops[oi].name, e, err)
						}
						if err == nil {
							ops[oi].apply(e)
						}
						if sig, msg := c.Try(e.observe); sig != "" {
							c.Failf("torn", "%s, storage failing at %s, returns %v; then %s", ops[oi].name, ft.at, err, msg)
						}
						e.reopen()
						if sig, msg := c.Try(e.observe); sig != "" {
							c.Failf("torn", "%s, storage failing at %s, returns %v; after reopening %s", ops[oi].name, ft.at, err, msg)
						}
						e.close()
						return true
					})
				})
			}
		}
	}
	w.Case("fault|load", func(c *vk.C) {
		e := newREnv(c, "flat", "cos")
		for _, i := range []int{0, 1} {
			if err := ops[i].run(e); err != nil {
				c.Failf("accept", "%v", err)
			}
			ops[i].apply(e)
		}
		eachFault(c, 40, func(ft *fault) bool {
			ft.arm()
			r, err := router.NewRouterWithStore(e.store, e.emb)
			vsql.SetHook(nil)
			if err == nil && setOf(r.List()) != "R_1,r_1" {
				c.Failf("silent", "with storage failing at %s a new router has the routes %v", ft.at, r.List())
			}
			return true
		})
	})
}

// sparse encoders

var sDocs = []string{"", "book flight", "book book hotel paris", "the weather in paris", "hotel", "Book WEATHER flight flight a"}

func sTerms(t string) (out []string) {
	stop := map[string]bool{"the": true, "in": true, "a": true}
	for _, x := range strings.Fields(strings.ToLower(t)) {
		if !stop[x] && len(x) > 1 {
			out = append(out, x)
		}
	}
	return
}

func sEncode(kind string, corpus []string, text string) map[string]float64 {
	df := map[string]int{}
	total := 0
	for _, d := range corpus {
		seen := map[string]bool{}
		for _, t := range sTerms(d) {
			total++
			if !seen[t] {
				df[t]++
			}
			seen[t] = true
		}
	}
	tf := map[string]int{}
	terms := sTerms(text)
	for _, t := range terms {
		tf[t]++
	}
	out := map[string]float64{}
	n := float64(len(corpus))
	for t, k := range tf {
		d, known := df[t]
		switch kind {
		case "bm25":
			idf := 1.0
			if known {
				idf = math.Log((n-float64(d)+0.5)/(float64(d)+0.5) + 1)
			}
			rel := 1.0
			if total > 0 {
				rel = float64(len(terms)) / (float64(total) / n)
			}
			out[t] = idf * (float64(k) * 2.2 / (float64(k) + 1.2*(0.25+0.75*rel)))
		default:
			if !known {
				continue
			}
			x := float64(k)
			if kind == "sub" {
				x = 1 + math.Log(x)
			}
			out[t] = x * math.Log(n/float64(d))
		}
	}
	return out
}

func sCos(a, b map[string]float64) float64 {
	var d, x, y float64
	for t, v := range a {
		d += v * b[t]
		x += v * v
	}
	for _, v := range b {
		y += v * v
	}
	if x == 0 || y == 0 {
		return 0
	}
	return d / math.Sqrt(x) / math.Sqrt(y)
}

type fitter interface {
	router.SparseEncoder
	Fit(context.Context, []string) error
}

func newEncoder(kind string) fitter {
	switch kind {
	case "bm25":
		return router.NewBM25Encoder()
	case "sub":
		return router.NewTFIDFEncoderWithSublinearTF()
	}
	return router.NewTFIDFEncoder()
}

func sameSparse(a, b map[string]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for t, v := range a {
		if w, ok := b[t]; !ok || math.IsNaN(v) || math.Abs(v-w) > 1e-9 {
			return false
		}
	}
	return true
}

func rSparse(w *vk.W) {
	n := len(sDocs)
	var corpora [][]string
	corpora = append(corpora, nil)
	for i := 0; i < n; i++ {
		corpora = append(corpora, []string{sDocs[i]})
		for j := 0; j < n; j++ {
			corpora = append(corpora, []string{sDocs[i], sDocs[j]})
			for k := 0; k < n; k++ {
				corpora = append(corpora, []string{sDocs[i], sDocs[j], sDocs[k]})
			}
		}
	}
	for _, kind := range []string{"bm25", "tfidf", "sub"} {
		for ci, corpus := range corpora {
			kind, corpus, ci := kind, corpus, ci
			w.Case(fmt.Sprintf("sparse|%s|%d", kind, ci), func(c *vk.C) {
				for _, first := range [][]string{nil, {"hotel paris", "sun"}} {
					e := newEncoder(kind)
					if first != nil {
						if err := e.Fit(bg, first); err != nil {
							c.Failf("fit", "%v", err)
						}
					}
					if err := e.Fit(bg, corpus); err != nil {
						c.Failf("fit", "%v", err)
					}
					vocab := map[string]bool{}
					for _, d := range corpus {
						for _, t := range sTerms(d) {
							vocab[t] = true
						}
					}
					var vl []string
					for t := range vocab {
						vl = append(vl, t)
					}
					if setOf(e.Vocabulary()) != setOf(vl) || e.Dimensions() != len(vl) {
						c.Failf("vocab", "%s of %q: vocabulary %v of %d", kind, corpus, e.Vocabulary(), e.Dimensions())
					}
					bt := e.EncodeSparseBatch(sDocs)
					for i, d := range sDocs {
						g, want := e.EncodeSparse(d), sEncode(kind, corpus, d)
						c.Trans(1)
						if !sameSparse(g, want) || !sameSparse(bt[i], want) {
							c.Failf("encode", "%s fitted on %q then %q encodes %q as %v (batch %v), want %v", kind, first, corpus, d, g, bt[i], want)
						}
						for k := 0; k < 4; k++ {
							tt := router.TopTerms(g, k)
							if x := len(g); k > 0 && k < x && len(tt) != k || (k == 0 || k >= x) && len(tt) != x {
								c.Failf("top", "TopTerms(%v, %d) has %d terms", g, k, len(tt))
							}
							low := math.Inf(1)
							got := map[string]bool{}
							for _, t := range tt {
								if t.Score != g[t.Term] || t.Score > low || got[t.Term] {
									c.Failf("top", "TopTerms(%v, %d) is %v", g, k, tt)
								}
								low = t.Score
								got[t.Term] = true
							}
							for t, s := range g {
								if !got[t] && s > low {
									c.Failf("top", "TopTerms(%v, %d) misses %s", g, k, t)
								}
							}
						}
						for _, d2 := range sDocs {
							if s := router.SparseSimilarity(g, e.EncodeSparse(d2)); !near(s, sCos(want, sEncode(kind, corpus, d2))) {
								c.Failf("similarity", "%q and %q: %v", d, d2, s)
							}
							for _, alpha := range []float64{-1, 0, 0.25, 1} {
								h := router.NewHybridEmbedder(&angleEmbedder{}, e)
								if alpha >= 0 {
									h.SetAlpha(alpha)
								} else {
									alpha = 0.5
								}
								v1, v2 := angleVec("a"), angleVec(d2)
								want := alpha*refCos(v1, v2) + (1-alpha)*sCos(want, sEncode(kind, corpus, d2))
								if s := h.HybridSimilarity(v1, h.EncodeSparse(d), v2, h.EncodeSparse(d2), core.CosineSimilarity); math.Abs(s-want) > 1e-5 || h.GetAlpha() != alpha {
									c.Failf("similarity", "hybrid similarity of %q and %q with weight %v: %v, want %v", d, d2, alpha, s, want)
								}
							}
						}
					}
				}
			})
		}
	}
}

// noBatch refuses to embed batches and, from the n-th on, single texts.
type noBatch struct{ *angleEmbedder }

func (n *noBatch) EmbedBatch(context.Context, []string) ([][]float32, error) { return nil, errEmbed }

// rLong: routes of up to 25 utterances, dense and sparse, also restored; and
// embedders without batches that fail at every single text.
func rLong(w *vk.W) {
	for _, mode := range []string{"plain", "memory", "flat", "hnsw"} {
		for _, n := range []int{4, 9, 11, 12, 25} {
			mode, n := mode, n
			w.Case(fmt.Sprintf("long|%s|%d", mode, n), func(c *vk.C) {
				e := newREnv(c, mode, "cos")
				var ops []routeOp
				for k, name := range []string{"r_1", "r3"} {
					var u []string
					for i := 0; i < n; i++ {
						u = append(u, fmt.Sprintf("a%d", (i*13+k*7)%360))
					}
					ops = append(ops, routeOp{name: name, routes: []*router.Route{rRoute(name, map[string]string{"k": name}, u...)}, batch: k == 1})
				}
				for _, o := range append(ops, routeOp{name: "reopen", reopen: true}, routeOp{name: "remove", remove: "r_1"}, routeOp{name: "reopen", reopen: true}) {
					if o.reopen {
						e.reopen()
					} else {
						if err := o.run(e); err != nil {
							c.Failf("add", "%s: %v", o.name, err)
						}
						o.apply(e)
					}
					e.observe()
					for _, m := range e.m {
						for _, u := range m.utts {
							r, err := e.r.Route(bg, u)
							e.check(u, r, err)
							c.Trans(1)
						}
					}
					c.State(e.String())
				}
			})
		}
	}
	for _, kind := range []string{"bm25", "tfidf", "sub"} {
		for _, n := range []int{2, 5, 12, 30} {
			kind, n := kind, n
			w.Case(fmt.Sprintf("longsparse|%s|%d", kind, n), func(c *vk.C) {
				enc := newEncoder(kind)
				var corpus []string
				for i := 0; i < n; i++ {
					corpus = append(corpus, fmt.Sprintf("word%d shared%d", i, i%3), fmt.Sprintf("term%d shared%d other", i, i%2))
				}
				if err := enc.Fit(bg, corpus); err != nil {
					c.Failf("fit", "%v", err)
				}
				sr, err := router.NewSparseRouter(enc)
				if err != nil {
					c.Failf("open", "%v", err)
				}
				utts := map[string][]string{}
				for i, d := range corpus {
					name := []string{"A", "B"}[i%2]
					utts[name] = append(utts[name], d)
				}
				for _, name := range []string{"A", "B"} {
					if err := sr.Add(&router.SparseRoute{Name: name, Utterances: utts[name]}); err != nil {
						c.Failf("add", "%v", err)
					}
				}
				for _, q := range append(corpus, "shared1 other", "word1", fmt.Sprintf("term%d", n-1)) {
					sc := map[string]float64{}
					for name, l := range utts {
						for _, u := range l {
							sc[name] = math.Max(sc[name], sCos(sEncode(kind, corpus, q), sEncode(kind, corpus, u)))
						}
					}
					best := math.Max(sc["A"], sc["B"])
					r, err := sr.Route(bg, q)
					c.Trans(1)
					if err != nil || !near(r.Score, best) || r.RouteName != "" && !near(sc[r.RouteName], best) {
						c.Failf("sparse route", "%s routes %q to %+v (%v), want %v", kind, q, r, err, sc)
					}
				}
				c.State(fmt.Sprint(kind, n))
			})
		}
	}
	for _, cached := range []bool{false, true} {
		for n := 1; n <= 9; n++ {
			cached, n := cached, n
			w.Case(fmt.Sprintf("nobatch|%v|%d", cached, n), func(c *vk.C) {
				emb := &noBatch{&angleEmbedder{}}
				r, err := router.NewRouter(emb, router.WithCacheEmbeddings(cached), router.WithThreshold(0.5))
				if err != nil {
					c.Failf("open", "%v", err)
				}
				for _, x := range []*router.Route{rRoute("one", nil, "a0", "a40", "a80"), rRoute("two", nil, "a120", "a160", "a200", "a240")} {
					if err := r.Add(x); err != nil {
						c.Failf("add", "%v", err)
					}
				}
				emb.calls, emb.fail, emb.once = 0, n, true
				if g, err := r.Route(bg, "a160"); err == nil && (g.RouteName != "two" || math.Abs(g.Score-1) > 1e-4) {
					c.Failf("swallowed", "Route with a failure at text %d gives %+v", n, g)
				}
				emb.fail = 0
				for q, want := range map[string]string{"a0": "one", "a40": "one", "a80": "one", "a120": "two", "a160": "two", "a200": "two", "a240": "two"} {
					g, err := r.Route(bg, q)
					c.Trans(1)
					if err != nil || g.RouteName != want || math.Abs(g.Score-1) > 1e-4 {
						c.Failf("cached", "after a failure at text %d, Route(%s) gives %+v, %v", n, q, g, err)
					}
				}
				c.State(fmt.Sprint(cached, n))
			})
		}
	}
}

// rHybrid: dense and sparse routing combined.
func rHybrid(w *vk.W) {
	type pair struct {
		name          string
		dense, sparse *router.Route
	}
	mk := func(n string, u ...string) *router.Route { return rRoute(n, nil, u...) }
	pairs := []pair{
		{"both", mk("x", "a10", "a30"), mk("x", "book flight", "hotel")},
		{"dense only", mk("y", "a100"), nil},
		{"sparse only", nil, mk("z", "weather paris")},
		{"bad sparse", mk("v", "a200"), mk("z")},
		{"duplicate sparse", mk("u", "a300"), mk("x", "flight")},
		{"duplicate dense", mk("x", "a350"), mk("t", "paris")},
		{"other", mk("t", "a60*2"), mk("t", "book hotel paris")},
	}
	var names []string
	for _, p := range pairs {
		names = append(names, p.name)
	}
	queries := []string{"a12", "a105", "book flight", "weather hotel", "a280", "zzz"}
	for _, kind := range []string{"bm25", "tfidf"} {
		for _, batch := range []bool{false, true} {
			kind, batch := kind, batch
			seqsOf(w, fmt.Sprintf("hybrid|%s|%v", kind, batch), names, w.Pick(3, 4), func(c *vk.C, seq []int) {
				enc := newEncoder(kind)
				corpus := []string{"book flight", "hotel", "weather paris", "book hotel paris"}
				if err := enc.Fit(bg, corpus); err != nil {
					c.Failf("fit", "%v", err)
				}
				h, err := router.NewHybridRouter(&angleEmbedder{}, enc, router.WithHybridThreshold(0.5), router.WithDenseThreshold(0.9), router.WithHybridSparseThreshold(0.4))
				if err != nil {
					c.Failf("open", "%v", err)
				}
				dm, sm := map[string][]string{}, map[string][]string{}
				conv := func(r *router.Route) *router.SparseRoute {
					if r == nil {
						return nil
					}
					return &router.SparseRoute{Name: r.Name, Utterances: r.Utterances}
				}
				dup := func(r *router.Route) *router.Route {
					if r == nil {
						return nil
					}
					return &router.Route{Name: r.Name, Utterances: r.Utterances}
				}
				if batch {
					var dl []*router.Route
					var sl []*router.SparseRoute
					ok := true
					d2, s2 := map[string]bool{}, map[string]bool{}
					for _, i := range seq {
						p := pairs[i]
						if p.dense != nil {
							dl = append(dl, dup(p.dense))
							ok = ok && !d2[p.dense.Name] && len(p.dense.Utterances) > 0
							d2[p.dense.Name] = true
						}
						if p.sparse != nil {
							sl = append(sl, conv(p.sparse))
							ok = ok && !s2[p.sparse.Name] && len(p.sparse.Utterances) > 0
							s2[p.sparse.Name] = true
						}
					}
					if err := h.AddBatch(dl, sl); (err == nil) != ok {
						c.Failf("accept", "AddBatch %v: %v", seq, err)
					}
					if ok {
						for _, r := range dl {
							dm[r.Name] = r.Utterances
						}
						for _, r := range sl {
							sm[r.Name] = r.Utterances
						}
					}
				} else {
					for _, i := range seq {
						p := pairs[i]
						ok := true
						if p.dense != nil {
							_, x := dm[p.dense.Name]
							ok = ok && !x && len(p.dense.Utterances) > 0
						}
						if p.sparse != nil {
							_, x := sm[p.sparse.Name]
							ok = ok && !x && len(p.sparse.Utterances) > 0
						}
						if err := h.Add(dup(p.dense), conv(p.sparse)); (err == nil) != ok {
							c.Failf("accept", "Add %s: %v", p.name, err)
						}
						if ok && p.dense != nil {
							dm[p.dense.Name] = p.dense.Utterances
						}
						if ok && p.sparse != nil {
							sm[p.sparse.Name] = p.sparse.Utterances
						}
					}
				}
				c.State(fmt.Sprint(dm, sm))
				all := map[string]bool{}
				for n := range dm {
					all[n] = true
				}
				for n := range sm {
					all[n] = true
				}
				var l []string
				for n := range all {
					l = append(l, n)
				}
				if setOf(h.List()) != setOf(l) {
					c.Failf("list", "List is %v, want %v", h.List(), l)
				}
				best := func(m map[string][]string, f func(u string) float64) (float64, map[string]bool) {
					b := math.Inf(-1)
					sc := map[string]float64{}
					for n, us := range m {
						sc[n] = math.Inf(-1)
						for _, u := range us {
							sc[n] = math.Max(sc[n], f(u))
						}
						b = math.Max(b, sc[n])
					}
					out := map[string]bool{}
					for n, s := range sc {
						if s > b-1e-6 {
							out[n] = true
						}
					}
					if len(m) == 0 {
						b = 0
					}
					return b, out
				}
				for _, al := range []float64{0, 0.3, 0.7, 1} {
					h.SetAlpha(al)
					if h.GetAlpha() != al {
						c.Failf("alpha", "GetAlpha is %v after SetAlpha(%v)", h.GetAlpha(), al)
					}
					rs, err := h.RouteBatch(bg, queries)
					if err != nil {
						c.Failf("route", "%v", err)
					}
					for i, q := range queries {
						r, err := h.Route(bg, q)
						if err != nil {
							c.Failf("route", "%v", err)
						}
						if r.RouteName != rs[i].RouteName || !near(r.CombinedScore, rs[i].CombinedScore) {
							c.Failf("batch", "RouteBatch gives %+v, Route %+v", rs[i], r)
						}
						ds, dn := best(dm, func(u string) float64 { return refCos(angleVec(q), angleVec(u)) })
						ss, sn := best(sm, func(u string) float64 { return sCos(sEncode(kind, corpus, q), sEncode(kind, corpus, u)) })
						cs := al*ds + (1-al)*ss
						if math.Abs(r.DenseScore-ds) > 1e-5 || math.Abs(r.SparseScore-ss) > 1e-6 || math.Abs(r.CombinedScore-cs) > 1e-5 || r.Score != r.CombinedScore {
							c.Failf("score", "%q with alpha %v: dense %v sparse %v combined %v, want %v %v %v", q, al, r.DenseScore, r.SparseScore, r.CombinedScore, ds, ss, cs)
						}
						if math.Abs(cs-0.5) > 1e-4 && r.Matched != (cs >= 0.5) {
							c.Failf("match", "%q: combined %v, matched %v", q, cs, r.Matched)
						}
						if math.Abs(ds-0.9) < 1e-4 || math.Abs(ss-0.4) < 1e-4 || math.Abs(ds-ss) < 1e-4 || math.Abs(cs-0.5) < 1e-4 {
							continue
						}
						var names map[string]bool
						switch {
						case len(dm) > 0 && ds >= 0.9:
							names = dn
						case len(sm) > 0 && ss >= 0.4:
							names = sn
						case cs >= 0.5 && ds > ss && len(dm) > 0:
							names = dn
						case cs >= 0.5 && len(sm) > 0:
							names = sn
						}
						if names == nil && r.RouteName != "" && cs < 0.5 || names != nil && !names[r.RouteName] {
							c.Failf("name", "%q is routed to %q, want %v", q, r.RouteName, names)
						}
					}
				}
			})
		}
	}
}

type fixedExtractor struct{}

func (fixedExtractor) Extract(_ context.Context, text string, _ *router.FunctionSchema) (map[string]interface{}, []string, error) {
	return map[string]interface{}{"own": text}, nil, nil
}

// rFunctions: function calls are complete exactly when nothing required is missing.
func rFunctions(w *vk.W) {
	type par struct {
		name, typ, desc, text string
		val                   interface{}
	}
	pars := []par{
		{"city", "string", "target (town)", "city Paris", "paris"},
		{"count", "integer", "how c++ many", "count 12", 12},
		{"ratio", "number", "", "ratio 2.5", nil},
		{"urgent", "boolean", "", "urgent yes", true},
	}
	for inText := 0; inText < 16; inText++ {
		for req := 0; req < 16; req++ {
			for how := 0; how < 3; how++ {
				inText, req, how := inText, req, how
				w.Case(fmt.Sprintf("function|%04b|%04b|%d", inText, req, how), func(c *vk.C) {
					b := router.NewSchemaBuilder("fn", "does")
					for i, p := range pars {
						r := req>>i&1 == 1
						if how == 2 && i == 1 {
							b.AddParameterWithDefault(p.name, p.typ, p.desc, r, 7)
						} else {
							b.AddParameter(p.name, p.typ, p.desc, r && how != 1)
						}
					}
					ran := 0
					b.SetHandler(func(_ context.Context, ps map[string]interface{}) (interface{}, error) { ran++; return ps["city"], nil })
					s := b.Build()
					if how == 1 {
						// as read from JSON: required by name only
						for i, p := range pars {
							if req>>i&1 == 1 {
								s.Required = append(s.Required, p.name)
							}
						}
					}
					js, err := s.ToJSON()
					if err != nil {
						c.Failf("json", "%v", err)
					}
					s2, err := router.ParseFunctionSchema(js)
					if err != nil {
						c.Failf("json", "%v", err)
					}
					js2, _ := s2.ToJSON()
					if js2 != js || setOf(s2.Required) != setOf(s.Required) {
						c.Failf("json", "a schema reads back as %s, was %s", js2, js)
					}
					var parts []string
					want := map[string]interface{}{}
					var missing []string
					for i, p := range pars {
						if inText>>i&1 == 1 {
							parts = append(parts, p.text)
							want[p.name] = p.val
						} else if how == 2 && i == 1 {
							want[p.name] = 7
						} else if req>>i&1 == 1 {
							missing = append(missing, p.name)
						}
					}
					text := "please " + strings.Join(parts, ", ")
					for _, route := range []string{"fn", "other"} {
						base, err := router.NewRouter(&angleEmbedder{})
						if err != nil {
							c.Failf("open", "%v", err)
						}
						fr := router.NewFunctionRouter(base)
						rt := router.CreateRouteWithFunction(route, []string{text}, s)
						if err := base.Add(rt.Route); err != nil {
							c.Failf("accept", "%v", err)
						}
						for _, bad := range []*router.RouteWithFunction{nil, {Route: rt.Route}, {Route: rt.Route, FunctionSchema: &router.FunctionSchema{}}} {
							if fr.Add(bad) == nil {
								c.Failf("refuse", "a function route %+v is accepted", bad)
							}
						}
						if err := fr.Add(rt); err != nil {
							c.Failf("accept", "%v", err)
						}
						call, err := fr.Route(bg, text)
						if err != nil || call == nil {
							c.Failf("call", "Route(%q) to a route %s of function fn: %v, %v", text, route, call, err)
						}
						if call.Name != "fn" || call.Complete != (len(missing) == 0) || setOf(call.Missing) != setOf(missing) {
							c.Failf("missing", "Route(%q): complete=%v missing=%v, want %v", text, call.Complete, call.Missing, missing)
						}
						for k, v := range want {
							g, ok := call.Arguments[k]
							if !ok || v != nil && !reflect.DeepEqual(g, v) {
								c.Failf("argument", "Route(%q): %s is %v, want %v", text, k, g, v)
							}
						}
						if len(call.Arguments) != len(want) {
							c.Failf("argument", "Route(%q): arguments %v, want %v", text, call.Arguments, want)
						}
						ran = 0
						res, err := call.Execute(bg)
						if (err == nil) != (len(missing) == 0) || (err == nil) != (ran == 1) {
							c.Failf("execute", "Execute with missing %v: %v, %v; handler ran %d times", missing, res, err, ran)
						}
						s.Extractor = fixedExtractor{}
						call, err = fr.Route(bg, text)
						s.Extractor = nil
						if err != nil || call == nil || call.Arguments["own"] != text {
							c.Failf("extractor", "the function's own extractor is not used: %+v, %v", call, err)
						}
						if call, err := fr.Route(bg, "a"); text != "a" && err == nil && call != nil && refCos(angleVec("a"), angleVec(text)) < 0.8 {
							c.Failf("call", "an unrelated text calls %+v", call)
						}
					}
					x := router.NewRegexExtractor()
					x.RegisterPattern("fn", "city", `to ([A-Z]\w+)`)
					ps, _, err := x.Extract(bg, "fly to Rome city Paris", s)
					if err != nil || ps["city"] != "Rome" {
						c.Failf("pattern", "a registered pattern gives %v, %v", ps, err)
					}
					x.RegisterPattern("fn", "city", `to ([`)
					ps, miss, err := x.Extract(bg, "fly to Rome", s)
					if err == nil && req&1 == 1 && ps["city"] == nil && !has(miss, "city") {
						c.Failf("pattern", "with a broken pattern the required city is neither found nor missing: %v %v", ps, miss)
					}
					_, _ = json.Marshal(ps)
				})
			}
		}
	}
}

// rConc: concurrent use.
func rConc(w *vk.W) {
	out := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	type op struct {
		name string
		run  func(r *router.Router) string
	}
	ops := []op{
		{"add r1", func(r *router.Router) string { return out(r.Add(rRoute("r_1", nil, "a10", "a30"))) }},
		{"add r1'", func(r *router.Router) string { return out(r.Add(rRoute("r_1", nil, "a50"))) }},
		{"batch r1 r2", func(r *router.Router) string {
			return out(r.AddBatch([]*router.Route{rRoute("R_1", nil, "a70"), rRoute("r_1", nil, "a90")}))
		}},
		{"remove r0", func(r *router.Router) string { return out(r.Remove("r0")) }},
		{"route", func(r *router.Router) string {
			x, err := r.Route(bg, "a12")
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%s %.4f", x.RouteName, x.Score)
		}},
		{"list", func(r *router.Router) string { return setOf(r.List()) }},
	}
	for _, mode := range []string{"cached", "flat"} {
		for i := range ops {
			for j := i; j < len(ops); j++ {
				for _, fail := range []int{0} {
					mode, i, j, fail := mode, i, j, fail
					if fail > 0 && (mode != "cached" || ops[i].name != "route" && ops[j].name != "route") {
						continue
					}
					names := []string{ops[i].name, ops[j].name}
					w.Case(fmt.Sprintf("conc|%s|%d|%s", mode, fail, strings.Join(names, "||")), func(c *vk.C) {
						k := 0
						serializable(c, w.Pick(2, 3), names, func() instance {
							k++
							e := &rEnv{c: c, mode: mode, sim: "cos", th: 0.5, emb: &angleEmbedder{}, path: filepath.Join(c.Dir(), fmt.Sprintf("r%d.db", k))}
							e.open()
							if err := e.r.Add(rRoute("r0", nil, "a0")); err != nil {
								c.Failf("accept", "%v", err)
							}
							e.emb.calls, e.emb.fail, e.emb.once = 0, fail, true
							in := instance{done: e.close}
							for _, x := range []int{i, j} {
								x := x
								in.threads = append(in.threads, []func() string{func() string { return ops[x].run(e.r) }})
							}
							in.snap = func() string {
								e.emb.fail = 0
								s := func() string {
									var l []string
									for _, n := range e.r.List() {
										l = append(l, n+fmt.Sprint(e.r.Get(n).Utterances))
									}
									x, err := e.r.Route(bg, "a12")
									if err != nil {
										return err.Error()
									}
									return setOf(l) + fmt.Sprintf(" %s %.4f", x.RouteName, x.Score)
								}
								a := s()
								e.reopen()
								return a + " | " + s()
							}
							return in
						})
					})
				}
			}
		}
	}
	// hybrid routers: a pair is added as a whole
	type hop struct {
		name string
		run  func(h *router.HybridRouter) string
	}
	hops := []hop{
		{"add", func(h *router.HybridRouter) string {
			return out(h.Add(rRoute("x", nil, "a10"), &router.SparseRoute{Name: "x", Utterances: []string{"hotel"}}))
		}},
		{"add refused", func(h *router.HybridRouter) string {
			return out(h.Add(rRoute("y", nil, "a12"), &router.SparseRoute{Name: "w", Utterances: []string{"flight"}}))
		}},
		{"route", func(h *router.HybridRouter) string {
			r, err := h.Route(bg, "hotel")
			if err != nil {
				return "error"
			}
			return fmt.Sprintf("%s %.4f %.4f %.4f", r.RouteName, r.DenseScore, r.SparseScore, r.CombinedScore)
		}},
		{"alpha", func(h *router.HybridRouter) string { h.SetAlpha(0.2); return "" }},
		{"list", func(h *router.HybridRouter) string { return setOf(h.List()) }},
	}
	for i := range hops {
		for j := i; j < len(hops); j++ {
			i, j := i, j
			names := []string{hops[i].name, hops[j].name}
			w.Case("hconc|"+strings.Join(names, "||"), func(c *vk.C) {
				serializable(c, w.Pick(2, 3), names, func() instance {
					h, err := router.NewHybridRouter(&angleEmbedder{}, router.NewBM25Encoder())
					if err == nil {
						err = h.Add(rRoute("w", nil, "a200"), &router.SparseRoute{Name: "w", Utterances: []string{"weather"}})
					}
					if err != nil {
						c.Failf("open", "%v", err)
					}
					in := instance{done: func() {}}
					for _, x := range []int{i, j} {
						x := x
						in.threads = append(in.threads, []func() string{func() string { return hops[x].run(h) }})
					}
					in.snap = func() string { return setOf(h.List()) + hops[2].run(h) + fmt.Sprint(h.Stats()) }
					return in
				})
			})
		}
	}
	// a cached embedder gives what the embedder gives
	for k := 0; k < 27; k++ {
		k := k
		w.Case(fmt.Sprintf("cachedembedder|%d", k), func(c *vk.C) {
			e := &angleEmbedder{}
			ce := router.NewCachedEmbedder(e)
			x := k
			for i := 0; i < 3; i++ {
				texts := [][]string{{"a1"}, {"a2", "a1", "a3", "a2"}, {"a3", "a4"}}[x%3]
				x /= 3
				e.calls, e.fail, e.once = 0, i, true
				vs, err := ce.EmbedBatch(bg, texts)
				e.fail = 0
				if err != nil {
					if !errors.Is(err, errEmbed) {
						c.Failf("cached", "%v", err)
					}
					continue
				}
				for j, t := range texts {
					v, err := ce.Embed(bg, t)
					if err != nil || !reflect.DeepEqual(v, angleVec(t)) || !reflect.DeepEqual(vs[j], v) {
						c.Failf("cached", "the cached embedder gives %v (batch %v) for %q, want %v", v, vs[j], t, angleVec(t))
					}
				}
				if i == 1 {
					ce.ClearCache()
					if ce.CacheSize() != 0 {
						c.Failf("cached", "%d texts are cached after ClearCache", ce.CacheSize())
					}
				}
			}
		})
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C24",
		Rule: "every sequence of route additions, batches, removals and reopenings in every router mode and similarity, every embedder and storage failure, every corpus and every pair of dense and sparse routes within the bounds, routes of up to 25 utterances, every combination of present and required function parameters, and schedules of concurrent use are compared with a model of the routes",
		Assumptions: []string{
			"routes of equal score may be chosen in any order; scores within 1e-3 of a threshold are not judged",
			"a restored route has no handler (functions are not stored)",
		},
		Run: func(w *vk.W) {
			rConc(w)
			rFaults(w)
			rFunctions(w)
			rSparse(w)
			rLong(w)
			rHybrid(w)
			rSeqs(w)
		}})
}
