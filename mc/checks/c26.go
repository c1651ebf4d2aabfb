package checks

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vtime"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

// bucket names one memory space.
type bucket struct{ scope, user, session, ns string }

func (b bucket) key() string {
	s := b.scope
	if s == "" {
		switch {
		case b.session != "":
			s = "session"
		case b.user != "":
			s = "user"
		default:
			s = "global"
		}
	}
	ns := b.ns
	if ns == "" {
		ns = "default"
	}
	switch s {
	case "user":
		return fmt.Sprintf("user|%q|%q", b.user, ns)
	case "session":
		return fmt.Sprintf("session|%q|%q", b.session, ns)
	}
	return fmt.Sprintf("global|%q", ns)
}

type memRec struct {
	id, bucket, scope, ns, role, content string
	meta                                 map[string]any
	imp                                  float64
	ttl                                  int
	vec                                  bool // written with an embedder
	written                              time.Time
}

func (r memRec) live() bool { // must be found
	return r.ttl <= 0 || vtime.Now().Before(r.written.Add(time.Duration(r.ttl-1)*time.Second))
}
func (r memRec) dead() bool { // must not be found
	return r.ttl > 0 && vtime.Now().After(r.written.Add(time.Duration(r.ttl)*time.Second))
}

type memEnv struct {
	c    *vk.C
	db   *cortexdb.DB
	emb  *wordEmbedder
	off  *wordEmbedder // the embedder of the runs that have one
	path string
	m    map[string]memRec
	err  error
}

var memVocab = []string{"apple", "pear", "plum", "kiwi"}

func newMemEnv(c *vk.C, semantic bool) *memEnv {
	vtime.Set(time.Date(2026, 1, 2, 3, 4, 5, 600000000, time.UTC))
	c.Defer(func() { vtime.Set(time.Time{}) })
	e := &memEnv{c: c, path: newCortexPath(c), m: map[string]memRec{}}
	if semantic {
		e.emb = &wordEmbedder{vocab: memVocab}
	}
	e.db = openCortex(c, e.path, e.emb, core.IndexTypeFlat)
	c.Defer(func() { e.db.Close() })
	return e
}

func (e *memEnv) String() string {
	var l []string
	for _, r := range e.m {
		l = append(l, fmt.Sprintf("%s@%s=%q %v %v %d %d", r.id, r.bucket, r.content, r.meta, r.imp, r.ttl, vtime.Now().Sub(r.written)))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func scopeOf(b bucket) string { k := b.key(); return k[:strings.Index(k, "|")] }

func (e *memEnv) same(what string, g cortexdb.MemoryRecord, w memRec) {
	c := e.c
	if g.ID != w.id || g.Content != w.content || g.Scope != w.scope || g.Namespace != w.ns || g.Role != w.role || g.Importance != w.imp || g.TTLSeconds != w.ttl {
		c.Failf("record", "%s: %+v, want %+v", what, g, w)
	}
	for k, v := range w.meta {
		if !reflect.DeepEqual(g.Metadata[k], v) {
			c.Failf("meta", "%s: metadata %v, want %v", what, g.Metadata, w.meta)
		}
	}
	for k := range g.Metadata {
		if _, ok := w.meta[k]; !ok && k != "kind" && k != "scope" && k != "namespace" && k != "importance" && k != "ttl_seconds" && k != "expires_at" {
			c.Failf("meta", "%s: metadata %v, want %v", what, g.Metadata, w.meta)
		}
	}
	if (w.ttl > 0) != (g.ExpiresAt != nil) {
		c.Failf("expiry", "%s: ttl %d but expires at %v", what, w.ttl, g.ExpiresAt)
	}
	if g.ExpiresAt != nil {
		d := w.written.Add(time.Duration(w.ttl) * time.Second).Sub(*g.ExpiresAt)
		if d < 0 || d >= time.Second {
			c.Failf("expiry", "%s: ttl %d set at %v but expires at %v", what, w.ttl, w.written, g.ExpiresAt)
		}
	}
}

func (e *memEnv) check(what string, err error, bad bool) bool {
	e.err = err
	if errors.Is(err, vsql.ErrInjected) {
		return false
	}
	if (err != nil) != bad {
		e.c.Failf("outcome", "%s returned %v, want an error: %v", what, err, bad)
	}
	return err == nil
}

type memOp struct {
	name string
	do   func(e *memEnv)
}

func opSaveMem(id string, b bucket, content string, meta map[string]any, imp float64, ttl int) memOp {
	return memOp{fmt.Sprintf("S(%s@%s %s %d)", id, b.key(), content, ttl), func(e *memEnv) {
		bad := id == "" || strings.TrimSpace(content) == "" || b.scope == "planet" || b.scope == "user" && b.user == "" || b.scope == "session" && b.session == ""
		r, err := e.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: id, UserID: b.user, SessionID: b.session, Scope: b.scope, Namespace: b.ns, Content: content, Metadata: meta, Importance: imp, TTLSeconds: ttl})
		if !e.check("SaveMemory("+id+")", err, bad) {
			return
		}
		ns := strings.TrimSpace(b.ns)
		if ns == "" {
			ns = "default"
		}
		w := memRec{id: id, bucket: b.key(), scope: scopeOf(b), ns: ns, role: "memory", content: content, meta: meta, imp: imp, ttl: ttl, vec: e.emb != nil, written: vtime.Now()}
		e.m[id] = w
		e.same("SaveMemory", r.Memory, w)
	}}
}

func opUpdateMem(name string, req cortexdb.MemoryUpdateRequest) memOp {
	return memOp{"U(" + name + ")", func(e *memEnv) {
		w, ok := e.m[req.MemoryID]
		r, err := e.db.UpdateMemory(bg, req)
		if !e.check("UpdateMemory("+req.MemoryID+")", err, !ok || req.Content != nil && strings.TrimSpace(*req.Content) == "") {
			return
		}
		if req.Content != nil {
			w.content, w.vec = *req.Content, e.emb != nil
		}
		meta := map[string]any{}
		for k, v := range w.meta {
			meta[k] = v
		}
		for k, v := range req.Metadata {
			if k != "scope" { // reserved
				meta[k] = v
			}
		}
		w.meta = meta
		if req.Importance != nil {
			w.imp = *req.Importance
		}
		if req.TTLSeconds != nil {
			w.ttl = *req.TTLSeconds
		}
		w.written = vtime.Now()
		e.m[w.id] = w
		e.same("UpdateMemory", r.Memory, w)
	}}
}

func opDeleteMem(id string) memOp {
	return memOp{"D(" + id + ")", func(e *memEnv) {
		_, ok := e.m[id]
		r, err := e.db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: id})
		if !e.check("DeleteMemory("+id+")", err, !ok) {
			return
		}
		if r.MemoryID != id || !r.Deleted {
			e.c.Failf("delete", "DeleteMemory(%s) = %+v", id, r)
		}
		delete(e.m, id)
	}}
}

func opReopenMem() memOp {
	return memOp{"REOPEN", func(e *memEnv) {
		if err := e.db.Close(); err != nil {
			e.c.Failf("close", "Close: %v", err)
		}
		e.db = openCortex(e.c, e.path, e.emb, core.IndexTypeFlat)
	}}
}

// opToggleMem opens the database again, without an embedder if it had one.
func opToggleMem() memOp {
	return memOp{"TOGGLE", func(e *memEnv) {
		if err := e.db.Close(); err != nil {
			e.c.Failf("close", "Close: %v", err)
		}
		if e.emb, e.off = e.off, e.emb; e.emb == nil && e.off == nil {
			e.emb = &wordEmbedder{vocab: memVocab}
		}
		e.db = openCortex(e.c, e.path, e.emb, core.IndexTypeFlat)
	}}
}

func ptr[T any](v T) *T { return &v }

func memOps() []memOp {
	u1, u1a, u2 := bucket{user: "u_1"}, bucket{scope: "user", user: "u_1", ns: "a"}, bucket{user: "U_1"}
	s1, gl := bucket{session: "s_1", user: "u_1"}, bucket{}
	return []memOp{
		opSaveMem("m1", u1, "apple pear", map[string]any{"k": "v"}, 0.5, 0),
		opSaveMem("m1", u2, "pear", nil, 0, 0),
		opSaveMem("m1", u1, "plum", nil, 1, 4),
		opSaveMem("m2", u1, "apple", nil, 0, 10),
		opSaveMem("m2", u1a, "pear plum", map[string]any{"k": float64(1)}, 0, 0),
		opSaveMem("m2", s1, "apple plum", nil, 0, 0),
		opSaveMem("m3", gl, "apple", nil, 0, 0),
		opSaveMem("m3", bucket{scope: "session", session: "u_1"}, "pear", nil, 0, 0),
		opUpdateMem("m1 kiwi", cortexdb.MemoryUpdateRequest{MemoryID: "m1", Content: ptr("kiwi apple")}),
		opUpdateMem("m1 meta", cortexdb.MemoryUpdateRequest{MemoryID: "m1", Metadata: map[string]any{"k": "w", "scope": "global", "n": true}, Importance: ptr(0.9)}),
		opUpdateMem("m2 ttl4", cortexdb.MemoryUpdateRequest{MemoryID: "m2", TTLSeconds: ptr(4)}),
		opUpdateMem("m2 ttl0", cortexdb.MemoryUpdateRequest{MemoryID: "m2", TTLSeconds: ptr(0)}),
		opDeleteMem("m1"),
		opDeleteMem("m2"),
		{"TICK6", func(e *memEnv) { vtime.Advance(6 * time.Second) }},
		opReopenMem(),
	}
}

// memFields writes every combination of the optional fields over every other,
// by saving again and by updating, and reads back.
func memFields(c *vk.C, semantic bool, first int) {
	e := newMemEnv(c, semantic)
	type f struct {
		role string
		imp  float64
		ttl  int
		meta map[string]any
	}
	var fs []f
	for _, role := range []string{"", "user", "Tool"} {
		for _, imp := range []float64{0, 0.3, 1} {
			for _, ttl := range []int{0, 30, 900} {
				for _, m := range []map[string]any{nil, {"k": "v"}, {"j": float64(2), "k": []any{"x"}}} {
					fs = append(fs, f{role, imp, ttl, m})
				}
			}
		}
	}
	read := func(what string, w memRec) {
		g, err := e.db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: w.id})
		if err != nil {
			c.Failf("get", "%s: %v", what, err)
		}
		e.same(what, g.Memory, w)
		r, err := e.db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "apple", UserID: "u"})
		if err != nil || len(r.Results) != 1 {
			c.Failf("search", "%s: a search finds %d memories (%v)", what, len(r.Results), err)
		}
		e.same(what, r.Results[0].Memory, w)
	}
	save := func(x f, text string) memRec {
		what := fmt.Sprintf("SaveMemory(%+v)", x)
		in := map[string]any{}
		for k, v := range x.meta {
			in[k] = v
		}
		r, err := e.db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: "m", UserID: "u", Role: x.role, Content: text, Metadata: in, Importance: x.imp, TTLSeconds: x.ttl})
		c.Trans(1)
		if err != nil {
			c.Failf("save", "%s: %v", what, err)
		}
		if len(in) != len(x.meta) {
			c.Failf("caller", "%s changes the caller's metadata to %v", what, in)
		}
		w := memRec{id: "m", scope: "user", ns: "default", role: x.role, content: text, meta: x.meta, imp: x.imp, ttl: x.ttl, written: vtime.Now()}
		if w.role == "" {
			w.role = "memory"
		}
		e.same(what, r.Memory, w)
		read(what, w)
		return w
	}
	for n, y := range fs {
		save(fs[first], "apple one")
		vtime.Advance(time.Second)
		w := save(y, fmt.Sprintf("apple %d", n))
		vtime.Advance(time.Second)
		// update over it, with each set of fields present
		z := fs[(first*7+n*5)%len(fs)]
		for set := 0; set < 16; set++ {
			u := cortexdb.MemoryUpdateRequest{MemoryID: "m"}
			if set&1 != 0 {
				u.Content = ptr(fmt.Sprintf("apple u%d", set))
				w.content = *u.Content
			}
			if set&2 != 0 {
				u.Importance = ptr(z.imp)
				w.imp = z.imp
			}
			if set&4 != 0 {
				u.TTLSeconds = ptr(z.ttl)
				w.ttl = *u.TTLSeconds
			}
			if set&8 != 0 {
				u.Metadata = z.meta
				m := map[string]any{}
				for k, v := range w.meta {
					m[k] = v
				}
				for k, v := range z.meta {
					m[k] = v
				}
				w.meta = m
			}
			w.written = vtime.Now()
			what := fmt.Sprintf("UpdateMemory(%+v, fields %04b) over %+v", z, set, y)
			r, err := e.db.UpdateMemory(bg, u)
			c.Trans(1)
			if err != nil {
				c.Failf("update", "%s: %v", what, err)
			}
			e.same(what, r.Memory, w)
			read(what, w)
			c.State(fmt.Sprint(w))
		}
	}
}

// memMany searches 70 memories with every limit.
func memMany(c *vk.C, semantic bool) {
	e := newMemEnv(c, semantic)
	b := bucket{user: "u"}
	for i := 0; i < 70; i++ {
		opSaveMem(fmt.Sprintf("m%02d", i), b, []string{"apple", "apple pear", "pear apple plum"}[i%3], nil, 0, []int{0, 0, 5, 0}[i%4]).do(e)
		opSaveMem(fmt.Sprintf("x%02d", i), bucket{user: "u", ns: "other"}, "apple", nil, 0, 0).do(e)
	}
	for round := 0; round < 2; round++ {
		for k := 0; k <= 75; k++ {
			for _, mode := range []string{"", "lexical"} {
				e.search(b, "apple", nil, nil, k, mode)
				c.Trans(1)
			}
		}
		e.search(b, "nothing", []string{"apple"}, []string{"pear plum"}, 60, "lexical")
		c.State(e.String())
		vtime.Advance(7 * time.Second)
	}
}

// search checks one memory search against the model.
func (e *memEnv) search(b bucket, query string, keywords, alt []string, topK int, mode string) {
	c := e.c
	r, err := e.db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: query, UserID: b.user, SessionID: b.session, Scope: b.scope, Namespace: b.ns, TopK: topK, Keywords: keywords, AlternateQueries: alt, RetrievalMode: mode})
	what := fmt.Sprintf("SearchMemory(%s, %q %v %v, k=%d, %s)", b.key(), query, keywords, alt, topK, mode)
	if err != nil {
		c.Failf("search", "%s: %v", what, err)
	}
	lim := topK
	if lim <= 0 {
		lim = 5
	}
	semantic := e.emb != nil && mode != "lexical"
	words := strings.Fields(query + " " + strings.Join(keywords, " ") + " " + strings.Join(alt, " "))
	elig, maybe := map[string]float64{}, 0
	// without any vector in the bucket, the search is a lexical one; beside
	// memories with a vector, those without may be left out
	anyVec := false
	for _, m := range e.m {
		anyVec = anyVec || m.vec && m.bucket == b.key() && !m.dead()
	}
	semantic = semantic && anyVec
	optional := map[string]bool{}
	for id, m := range e.m {
		if m.bucket != b.key() || m.dead() {
			continue
		}
		if semantic && m.vec {
			elig[id] = refCos(e.emb.vec(query), e.emb.vec(m.content))
		} else {
			for _, wd := range words {
				if has(strings.Fields(m.content), wd) {
					if semantic {
						optional[id] = true
					} else {
						elig[id] = 0
					}
				}
			}
		}
		if _, ok := elig[id]; ok && !m.live() {
			maybe++
		}
	}
	got := map[string]bool{}
	lastScore, lastRef, low := math.Inf(1), math.Inf(1), math.Inf(1)
	for _, h := range r.Results {
		m, ok := e.m[h.Memory.ID]
		s, el := elig[h.Memory.ID]
		if optional[h.Memory.ID] {
			continue
		}
		if !ok || !el || got[h.Memory.ID] {
			c.Failf("foreign", "%s returned %s (%q); the bucket holds %s", what, h.Memory.ID, h.Memory.Content, scoreStr(elig))
		}
		got[h.Memory.ID] = true
		e.same(what, h.Memory, m)
		if h.Score > lastScore+eps {
			c.Failf("order", "%s: scores not in order", what)
		}
		lastScore = h.Score
		if semantic {
			if s > lastRef+eps {
				c.Failf("rank", "%s: %s ranked too low", what, h.Memory.ID)
			}
			lastRef = s
			low = math.Min(low, s)
		}
	}
	n := min(len(elig), lim)
	if len(r.Results) > n || len(r.Results) < min(len(elig)-maybe, lim) {
		c.Failf("count", "%s returned %d results, want %d of %s", what, len(r.Results), n, scoreStr(elig))
	}
	if semantic && len(r.Results) == lim && maybe == 0 {
		for id, s := range elig {
			if !got[id] && s > low+eps {
				c.Failf("rank", "%s misses %s", what, id)
			}
		}
	}
}

func (e *memEnv) observe() {
	c := e.c
	for _, id := range []string{"m1", "m2", "m3", "m4"} {
		g, err := e.db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: id})
		w, ok := e.m[id]
		if !ok {
			if !errors.Is(err, core.ErrNotFound) {
				c.Failf("get", "GetMemory(%s) of a missing memory: %+v, %v", id, g, err)
			}
			continue
		}
		if err != nil {
			if !w.live() && errors.Is(err, core.ErrNotFound) {
				continue
			}
			c.Failf("get", "GetMemory(%s): %v", id, err)
		}
		e.same("GetMemory", g.Memory, w)
	}
	bs := []bucket{{user: "u_1"}, {user: "u_1", ns: "a"}, {user: "U_1"}, {session: "s_1"}, {}, {scope: "session", session: "u_1"}, {ns: "a"}, {user: "u3"}, {scope: "global", user: "u_1", session: "s_1"}, {scope: "user", user: "u_1", session: "s_1", ns: " default "}}
	for i, b := range bs {
		b2 := b
		b2.ns = strings.TrimSpace(b.ns)
		if b2 != b {
			e.searchAs(b, b2)
			continue
		}
		for _, q := range []string{"apple", "pear"} {
			for _, k := range []int{0, 1} {
				e.search(b, q, nil, nil, k, "")
			}
			if e.emb != nil && i < 2 {
				e.search(b, q, nil, nil, 5, "lexical")
			}
		}
		if i < 3 {
			e.search(b, "kiwi", []string{"plum"}, nil, 3, "lexical")
			e.search(b, "kiwi", nil, []string{"pear"}, 3, "lexical")
		}
	}
}

// searchAs searches with one spelling of a bucket and expects another's content.
func (e *memEnv) searchAs(b, want bucket) {
	r, err := e.db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "apple", UserID: b.user, SessionID: b.session, Scope: b.scope, Namespace: b.ns, TopK: 10, RetrievalMode: "lexical"})
	if err != nil {
		e.c.Failf("search", "%v", err)
	}
	for _, h := range r.Results {
		if e.m[h.Memory.ID].bucket != want.key() {
			e.c.Failf("foreign", "a search in %s returns %s of %s", want.key(), h.Memory.ID, e.m[h.Memory.ID].bucket)
		}
	}
}

// memBuckets stores one memory in each of many similar buckets.
func memBuckets(w *vk.W) {
	var bs []bucket
	ids := []string{"a", "b", "a:b", "b:c", "a%3Ab", "A", "user:a", "default", "a'b", "ä"}
	for _, x := range append([]string{" a", "a ", "a%"}, ids...) {
		for _, ns := range []string{"", "b", "c", "b:c", "B", "user"} {
			bs = append(bs, bucket{scope: "user", user: x, ns: ns}, bucket{scope: "session", session: x, ns: ns})
		}
	}
	for _, ns := range append([]string{""}, ids...) {
		bs = append(bs, bucket{scope: "global", ns: ns})
	}
	for i := range bs {
		i := i
		for _, sem := range []bool{false, true} {
			sem := sem
			w.Case(fmt.Sprintf("bucket|%d|%v", i, sem), func(c *vk.C) {
				e := newMemEnv(c, sem)
				opSaveMem("x", bs[i], "apple", nil, 0, 0).do(e)
				for _, b := range bs {
					if b.ns == "default" || b.ns == "" {
						if bs[i].ns == "" || bs[i].ns == "default" {
							b.ns = bs[i].ns
						}
					}
					e.search(b, "apple", nil, nil, 5, "lexical")
					if sem {
						e.search(b, "apple", nil, nil, 5, "")
					}
				}
			})
		}
	}
}

// memExpired mixes expired and live memories.
func memExpired(w *vk.W) {
	n := w.Pick(7, 9)
	for mask := 0; mask < 1<<n; mask++ {
		mask := mask
		w.Case(fmt.Sprintf("expired|%x", mask), func(c *vk.C) {
			e := newMemEnv(c, mask%2 == 0)
			for i := 0; i < n; i++ {
				ttl := 0
				if mask>>i&1 == 1 {
					ttl = 2 + i%3
				}
				opSaveMem(fmt.Sprintf("m%d", i), bucket{user: "u"}, "apple "+strings.Repeat("apple ", i%3)+memVocab[1+i%3], nil, 0, ttl).do(e)
			}
			for _, d := range []time.Duration{0, 2500, 1000, 5000} {
				vtime.Advance(d * time.Millisecond)
				for _, k := range []int{1, 2, 5} {
					e.search(bucket{user: "u"}, "apple", nil, nil, k, "")
					e.search(bucket{user: "u"}, "apple", nil, nil, k, "lexical")
				}
			}
		})
	}
}

func memFaults(w *vk.W) {
	ops := memOps()
	for oi := range ops {
		if ops[oi].name == "REOPEN" || ops[oi].name == "TICK6" {
			continue
		}
		oi := oi
		for _, pre := range [][]int{{}, {0, 3}, {1, 4, 6}} {
			pre := pre
			w.Case(fmt.Sprintf("fault|%s|%v", ops[oi].name, pre), func(c *vk.C) {
				eachFault(c, 40, func(ft *fault) bool {
					e := newMemEnv(c, oi%2 == 0)
					defer e.db.Close()
					for _, i := range pre {
						ops[i].do(e)
					}
					ft.arm()
					ops[oi].do(e)
					vsql.SetHook(nil)
					c.Logf("%s, fault at %s: %v", ops[oi].name, ft.at, e.err)
					e.observe()
					ops[oi].do(e)
					e.observe()
					return true
				})
			})
		}
	}
	// a failing embedder
	for oi := range ops {
		oi := oi
		w.Case("embed|"+ops[oi].name, func(c *vk.C) {
			e := newMemEnv(c, true)
			for _, i := range []int{0, 3, 6} {
				ops[i].do(e)
			}
			before := e.String()
			e.emb.fail = e.emb.calls + 1
			keep := map[string]memRec{}
			for k, v := range e.m {
				keep[k] = v
			}
			if strings.HasPrefix(ops[oi].name, "S(") || ops[oi].name == "U(m1 kiwi)" {
				sub := *e
				sub.m = map[string]memRec{}
				c.Try(func() { ops[oi].do(&sub) })
				if sub.err == nil {
					c.Failf("embed", "%s succeeds although the embedder fails", ops[oi].name)
				}
			}
			e.emb.fail = 0
			e.m = keep
			if e.String() != before {
				c.Fatal("model changed")
			}
			e.observe()
		})
	}
}

func memConc(w *vk.W) {
	type act struct {
		name string
		run  func(db *cortexdb.DB) error
	}
	save := func(id string, b bucket, content string) act {
		return act{"save " + id + "@" + b.key(), func(db *cortexdb.DB) error {
			_, err := db.SaveMemory(bg, cortexdb.MemorySaveRequest{MemoryID: id, UserID: b.user, SessionID: b.session, Namespace: b.ns, Content: content})
			return err
		}}
	}
	upd := func(n string, r cortexdb.MemoryUpdateRequest) act {
		return act{"update " + n, func(db *cortexdb.DB) error { _, err := db.UpdateMemory(bg, r); return err }}
	}
	acts := []act{
		save("m1", bucket{user: "u_1"}, "plum"),
		save("m1", bucket{user: "u9"}, "kiwi"),
		save("m5", bucket{user: "u9"}, "apple"),
		save("m6", bucket{user: "u_1"}, "pear"),
		upd("m1 content", cortexdb.MemoryUpdateRequest{MemoryID: "m1", Content: ptr("kiwi")}),
		upd("m1 meta", cortexdb.MemoryUpdateRequest{MemoryID: "m1", Metadata: map[string]any{"a": "1"}, Importance: ptr(0.25)}),
		upd("m1 meta2", cortexdb.MemoryUpdateRequest{MemoryID: "m1", Metadata: map[string]any{"b": "2"}, TTLSeconds: ptr(100)}),
		{"delete m1", func(db *cortexdb.DB) error {
			_, err := db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: "m1"})
			return err
		}},
		{"delete m2", func(db *cortexdb.DB) error {
			_, err := db.DeleteMemory(bg, cortexdb.MemoryDeleteRequest{MemoryID: "m2"})
			return err
		}},
		{"search", func(db *cortexdb.DB) error {
			r, err := db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "quince", UserID: "U_1", TopK: 5})
			if err == nil && (len(r.Results) != 1 || r.Results[0].Memory.ID != "m0") {
				return fmt.Errorf("search returned %+v", r.Results)
			}
			return err
		}},
	}
	for i := range acts {
		for j := i; j < len(acts); j++ {
			i, j := i, j
			w.Case(fmt.Sprintf("conc|%s|%s", acts[i].name, acts[j].name), func(c *vk.C) {
				vtime.Set(time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC))
				c.Defer(func() { vtime.Set(time.Time{}) })
				path := newCortexPath(c)
				db := openCortex(c, path, nil, core.IndexTypeFlat)
				for _, a := range []act{save("m0", bucket{user: "U_1"}, "quince"), save("m1", bucket{user: "u_1"}, "apple"), save("m2", bucket{session: "s_1"}, "pear")} {
					if err := a.run(db); err != nil {
						c.Fatal("%v", err)
					}
				}
				db.Close()
				data, err := os.ReadFile(path)
				if err != nil {
					c.Fatal("%v", err)
				}
				dir, k := c.Dir(), 0
				serializable(c, w.Pick(2, 4), []string{acts[i].name, acts[j].name}, func() instance {
					k++
					p := filepath.Join(dir, fmt.Sprintf("x%d.db", k))
					os.WriteFile(p, data, 0o644)
					db := openCortex(c, p, nil, core.IndexTypeFlat)
					do := func(a act) []func() string {
						return []func() string{func() string { return outcome(a.run(db)) }}
					}
					return instance{threads: [][]func() string{do(acts[i]), do(acts[j])},
						snap: func() string {
							var l []string
							for _, id := range []string{"m0", "m1", "m2", "m5", "m6"} {
								r, err := db.GetMemory(bg, cortexdb.MemoryGetRequest{MemoryID: id})
								if err != nil {
									l = append(l, id+":none")
									continue
								}
								m := r.Memory
								l = append(l, fmt.Sprintf("%s:%s %s %q %v", id, m.SessionID, m.UserID, m.Content, m.Metadata))
							}
							for _, b := range []bucket{{user: "u_1"}, {user: "U_1"}, {user: "u9"}, {session: "s_1"}} {
								r, err := db.SearchMemory(bg, cortexdb.MemorySearchRequest{Query: "apple", Keywords: []string{"pear", "plum", "kiwi", "quince"}, UserID: b.user, SessionID: b.session, TopK: 9})
								if err != nil {
									l = append(l, err.Error())
									continue
								}
								var ids []string
								for _, h := range r.Results {
									ids = append(ids, h.Memory.ID)
								}
								l = append(l, b.key()+"="+setOf(ids))
							}
							return strings.Join(l, "; ")
						},
						done: func() {
							db.Close()
							for _, x := range []string{"", "-wal", "-shm"} {
								os.Remove(p + x)
							}
						}}
				})
			})
		}
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C26", Rule: "every sequence of up to 3/4 memory operations (saves in user, session, global buckets with and without expiry, updates, deletions, clock ticks, reopening), lexical and semantic, and opened in turn with and without an embedder, then reads and searches of all buckets; a grid of similar bucket names; every mix of expired and live memories; optional fields written over each other in every combination; searches of 70 memories with every limit; a fault at every storage call; failing embedder; every schedule of pairs",
		Assumptions: []string{"the clock is scripted; expiry is checked up to one second"},
		Run: func(w *vk.W) {
			ops := memOps()
			var names []string
			for _, o := range ops {
				names = append(names, o.name)
			}
			for _, sem := range []bool{false, true} {
				sem := sem
				w.Case(fmt.Sprintf("many|%v", sem), func(c *vk.C) { memMany(c, sem) })
				for first := 0; first < 81; first++ {
					if sem, first := sem, first; w.Thorough() || first%9 == 4 {
						w.Case(fmt.Sprintf("fields|%v|%d", sem, first), func(c *vk.C) { memFields(c, sem, first) })
					}
				}
			}
			for _, sem := range []bool{false, true} {
				for d := 1; d <= w.Pick(3, 4); d++ {
					sem := sem
					seqsOf(w, fmt.Sprintf("seq%v", sem), names, d, func(c *vk.C, seq []int) {
						e := newMemEnv(c, sem)
						for _, i := range seq {
							c.Logf("%s", ops[i].name)
							ops[i].do(e)
							c.Trans(1)
						}
						c.State(e.String())
						e.observe()
					})
				}
			}
			// with an embedder, then without, then with (and the other way round)
			tg := opToggleMem()
			for _, sem := range []bool{false, true} {
				sem := sem
				for d := 2; d <= w.Pick(2, 3); d++ {
					seqsOf(w, fmt.Sprintf("toggle%v", sem), names, d, func(c *vk.C, seq []int) {
						e := newMemEnv(c, sem)
						for at, i := range seq {
							ops[i].do(e)
							if at >= len(seq)-2 {
								tg.do(e)
							}
							c.Trans(1)
						}
						c.State(e.String())
						e.observe()
						if e.emb == nil {
							tg.do(e)
							e.observe()
						}
					})
				}
			}
			bad := []memOp{
				opSaveMem("", bucket{}, "x", nil, 0, 0), opSaveMem("m", bucket{}, " ", nil, 0, 0), opSaveMem("m", bucket{scope: "user"}, "x", nil, 0, 0),
				opSaveMem("m", bucket{scope: "session", user: "u"}, "x", nil, 0, 0), opSaveMem("m", bucket{scope: "planet"}, "x", nil, 0, 0),
				opUpdateMem("empty", cortexdb.MemoryUpdateRequest{MemoryID: "m1", Content: ptr("")}), opUpdateMem("none", cortexdb.MemoryUpdateRequest{MemoryID: "zz", Content: ptr("x")}),
				opDeleteMem("zz"),
			}
			for i := range bad {
				i := i
				w.Case("bad|"+bad[i].name, func(c *vk.C) {
					e := newMemEnv(c, false)
					ops[0].do(e)
					bad[i].do(e)
					e.observe()
				})
			}
			memBuckets(w)
			memExpired(w)
			memFaults(w)
			memConc(w)
		}})
}
