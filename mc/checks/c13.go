package checks

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsync"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// cop is one operation of a concurrent program: run drives the store and
// describes the outcome, apply gives the outcome of the same step on the model.
// touches lists the ids whose search visibility may change while it runs.
type cop struct {
	name    string
	run     func(s *core.SQLiteStore) string
	apply   func(m *model) string // nil: outcome is checked by loose
	touches []string
	writes  []row
	loose   func(out string, sc *scenario) string // returns a complaint
}

type scenario struct {
	init    *model
	ops     []cop
	touched map[string]bool
	vers    map[string][]row
}

func outcome(err error) string {
	if err == nil {
		return "ok"
	}
	if errors.Is(err, core.ErrStoreClosed) {
		return "closed"
	}
	if strings.Contains(err.Error(), "database is closed") {
		return "closed"
	}
	if strings.Contains(err.Error(), "locked") || strings.Contains(err.Error(), "busy") {
		return "BUSY " + err.Error()
	}
	return "err"
}

func rowStr(r row) string {
	return fmt.Sprintf("%s|%s|%s|%v|%s|%s|%v", r.id, r.coll, r.doc, r.vec, r.content, metaStr(r.meta), r.acl)
}

func fromEmb(g *core.Embedding) row {
	return row{id: g.ID, coll: g.Collection, doc: g.DocID, content: g.Content, vec: g.Vector, meta: g.Metadata, acl: g.ACL}
}

func copUpsert(r row) cop {
	return cop{name: fmt.Sprintf("U(%s=%v@%s/%s)", r.id, r.vec, r.coll, r.doc), touches: []string{r.id}, writes: []row{r},
		run: func(s *core.SQLiteStore) string { return outcome(s.Upsert(bg, toEmb(r))) },
		apply: func(m *model) string {
			if !m.valid(r) {
				return "err"
			}
			m.put(r)
			return "ok"
		}}
}

func copBatch(rs ...row) cop {
	c := cop{name: "B", writes: rs}
	for _, r := range rs {
		c.name += fmt.Sprintf("(%s=%v@%s)", r.id, r.vec, r.coll)
		c.touches = append(c.touches, r.id)
	}
	c.run = func(s *core.SQLiteStore) string {
		var l []*core.Embedding
		for _, r := range rs {
			l = append(l, toEmb(r))
		}
		return outcome(s.UpsertBatch(bg, l))
	}
	c.apply = func(m *model) string {
		for _, r := range rs {
			if !m.valid(r) {
				return "err"
			}
		}
		for _, r := range rs {
			m.put(r)
		}
		return "ok"
	}
	return c
}

func copDel(ids ...string) cop {
	return cop{name: "D" + fmt.Sprint(ids), touches: ids,
		run: func(s *core.SQLiteStore) string {
			if len(ids) == 1 {
				return outcome(s.Delete(bg, ids[0]))
			}
			return outcome(s.DeleteBatch(bg, ids))
		},
		apply: func(m *model) string {
			any := "err"
			for _, id := range ids {
				if _, ok := m.rows[id]; ok {
					any = "ok"
				}
				delete(m.rows, id)
			}
			return any
		}}
}

func cops() []cop {
	all := []string{"a", "b", "c", "d"}
	l := []cop{
		copUpsert(row{id: "a", vec: sv["r"], content: "a'"}),
		copUpsert(row{id: "a", coll: "c_1", doc: "d_1", vec: sv["t"], content: "a''", meta: map[string]string{"type": "x"}, acl: []string{"u"}}),
		copUpsert(row{id: "c", vec: sv["u"], content: "c", doc: "d_1"}),
		copBatch(row{id: "a", vec: sv["u"], content: "ba"}, row{id: "c", coll: "c_1", vec: sv["r"], content: "bc"}),
		copDel("a"),
		copDel("b", "a"),
		{name: "DBD(d1)", touches: all, run: func(s *core.SQLiteStore) string { return outcome(s.DeleteByDocID(bg, "d_1")) },
			apply: func(m *model) string { m.delDoc("d_1"); return "ok" }},
		{name: "DF(type=x)", touches: all, run: func(s *core.SQLiteStore) string {
			return outcome(s.DeleteByFilter(bg, core.NewMetadataFilter().Equal("type", "x")))
		}, apply: func(m *model) string {
			for id, r := range m.rows {
				if r.meta["type"] == "x" {
					delete(m.rows, id)
				}
			}
			return "ok"
		}},
		{name: "CLR", touches: all, run: func(s *core.SQLiteStore) string { return outcome(s.Clear(bg)) }, apply: func(m *model) string { m.rows = map[string]row{}; return "ok" }},
		{name: "DC(c1)", touches: all, run: func(s *core.SQLiteStore) string { return outcome(s.DeleteCollection(bg, "c_1")) },
			apply: func(m *model) string {
				if _, ok := m.colls["c_1"]; !ok {
					return "err"
				}
				m.delColl("c_1")
				delete(m.colls, "c_1")
				return "ok"
			}},
		{name: "CC(c2)", run: func(s *core.SQLiteStore) string { _, err := s.CreateCollection(bg, "C_1", 2); return outcome(err) },
			apply: func(m *model) string {
				if _, ok := m.colls["C_1"]; ok {
					return "err"
				}
				m.colls["C_1"] = 2
				return "ok"
			}},
		{name: "DD(d1)", touches: all, run: func(s *core.SQLiteStore) string { return outcome(s.DeleteDocument(bg, "d_1")) },
			apply: func(m *model) string {
				if _, ok := m.docs["d_1"]; ok {
					m.delDoc("d_1")
					delete(m.docs, "d_1")
				}
				return "ok"
			}},
		{name: "UD(d1)", run: func(s *core.SQLiteStore) string {
			return outcome(s.UpdateDocument(bg, toDoc(docRow{id: "d_1", title: "T2", version: 2})))
		}, apply: func(m *model) string {
			if _, ok := m.docs["d_1"]; !ok {
				return "err"
			}
			m.docs["d_1"] = docRow{id: "d_1", title: "T2", version: 2}
			return "ok"
		}},
		{name: "GET(a)", run: func(s *core.SQLiteStore) string {
			g, err := s.GetByID(bg, "a")
			if err != nil {
				if errors.Is(err, core.ErrNotFound) {
					return "notfound"
				}
				return outcome(err)
			}
			return rowStr(fromEmb(g))
		}, apply: func(m *model) string {
			r, ok := m.rows["a"]
			if !ok {
				return "notfound"
			}
			return rowStr(r)
		}},
		{name: "STATS", run: func(s *core.SQLiteStore) string {
			st, err := s.Stats(bg)
			if err != nil {
				return outcome(err)
			}
			return fmt.Sprint(st.Count)
		}, apply: func(m *model) string { return fmt.Sprint(len(m.rows)) }},
		{name: "BYDOC(d1)", run: func(s *core.SQLiteStore) string {
			l, err := s.GetByDocID(bg, "d_1")
			if err != nil {
				return outcome(err)
			}
			var x []string
			for _, g := range l {
				x = append(x, rowStr(fromEmb(g)))
			}
			sort.Strings(x)
			return strings.Join(x, ";")
		}, apply: func(m *model) string {
			var x []string
			for _, r := range m.rows {
				if r.doc == "d_1" {
					x = append(x, rowStr(r))
				}
			}
			sort.Strings(x)
			return strings.Join(x, ";")
		}},
		copSearch(),
		copHybrid(),
	}
	return l
}

func copSearch() cop {
	q := []float32{0.7, 0.2}
	return cop{name: "SEARCH", run: func(s *core.SQLiteStore) string {
		got, err := s.Search(bg, q, core.SearchOptions{TopK: 20})
		if err != nil {
			return outcome(err)
		}
		var x []string
		for _, g := range got {
			x = append(x, fmt.Sprintf("%s|%.4f|%s", g.ID, g.Score, g.Content))
		}
		return "=" + strings.Join(x, ";")
	}, loose: func(out string, sc *scenario) string {
		return looseHits(out, sc, func(r row) string { return fmt.Sprintf("%s|%.4f|%s", r.id, refCos(q, r.vec), r.content) })
	}}
}

func copHybrid() cop {
	return cop{name: "KEYWORD", run: func(s *core.SQLiteStore) string {
		got, err := s.HybridSearch(bg, nil, "a OR b OR c", core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 20}})
		if err != nil {
			return outcome(err)
		}
		var x []string
		for _, g := range got {
			x = append(x, fmt.Sprintf("%s|%s", g.ID, g.Content))
		}
		return "=" + strings.Join(x, ";")
	}, loose: func(out string, sc *scenario) string {
		n := *sc
		n.init = n.init.clone()
		for id, r := range n.init.rows { // rows without the words are not expected
			if !words(r.content)["a"] && !words(r.content)["b"] && !words(r.content)["c"] {
				delete(n.init.rows, id)
			}
		}
		return looseHits(out, &n, func(r row) string { return r.id + "|" + r.content })
	}}
}

// looseHits: a search that overlaps writes may or may not see them, but every
// hit must be a version that was written, without duplicates, and rows nobody
// touches must be found.
func looseHits(out string, sc *scenario, f func(r row) string) string {
	if !strings.HasPrefix(out, "=") {
		return "search failed: " + out
	}
	seen := map[string]bool{}
	for _, h := range strings.Split(out[1:], ";") {
		if h == "" {
			continue
		}
		id := h[:strings.Index(h, "|")]
		if seen[id] {
			return "duplicate hit " + id
		}
		seen[id] = true
		ok := false
		for _, r := range sc.vers[id] {
			ok = ok || f(r) == h
		}
		if !ok {
			return "hit " + h + " is no version of " + id
		}
	}
	for id := range sc.init.rows {
		if !sc.touched[id] && !seen[id] {
			return "untouched row " + id + " is missing"
		}
	}
	return ""
}

// snapshot reads the whole store back as a model.
func snapshot(s *core.SQLiteStore, dim int) (*model, error) {
	m := newModel(dim)
	for _, id := range []string{"a", "b", "c", "d"} {
		g, err := s.GetByID(bg, id)
		if errors.Is(err, core.ErrNotFound) {
			continue
		}
		if err != nil {
			return nil, err
		}
		m.rows[id] = fromEmb(g)
	}
	cl, err := s.ListCollections(bg)
	if err != nil {
		return nil, err
	}
	m.colls = map[string]int{}
	for _, c := range cl {
		m.colls[c.Name] = c.Dimensions
	}
	if g, err := s.GetDocument(bg, "d_1"); err == nil {
		m.docs["d_1"] = docRow{id: "d_1", title: g.Title, version: g.Version, author: g.Author, content: g.Content, acl: g.ACL}
	}
	return m, nil
}

type call struct {
	op         cop
	out        string
	start, end int
	thread     int
}

// linear looks for an order of the calls, consistent with their overlap, whose
// outcomes and final state agree with the model.
func linear(init *model, calls []*call, final string, closedOK bool) bool {
	used := make([]bool, len(calls))
	var rec func(m *model, n int) bool
	rec = func(m *model, n int) bool {
		if n == len(calls) {
			return final == "" || m.String() == final
		}
		for i, c := range calls {
			if used[i] {
				continue
			}
			early := true // no pending call finished before c started
			for j, d := range calls {
				if j != i && !used[j] && d.end < c.start {
					early = false
				}
			}
			if !early {
				continue
			}
			used[i] = true
			nm := m.clone()
			ok := false
			if c.op.apply == nil {
				ok = rec(nm, n+1)
			} else if closedOK && c.out == "closed" {
				ok = rec(m.clone(), n+1) // refused: no effect
			} else {
				ok = c.op.apply(nm) == c.out && rec(nm, n+1)
			}
			used[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	return rec(init.clone(), 0)
}

type concCfg struct {
	ct   cfgT
	tmpl []byte
}

// concurrent explores one program: threads of operations on a prepared store.
func concurrent(c *vk.C, ct cfgT, threads [][]cop, bound int, closes bool) {
	c.Defer(coins(1))
	// build the initial database once
	e := newEnv(c, ct)
	opCreateColl("c_1", 2).do(e)
	opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
	opBatch("", row{id: "a", vec: sv["p"], content: "a", meta: map[string]string{"type": "x"}}, row{id: "b", coll: "c_1", doc: "d_1", vec: sv["q"], content: "b"}, row{id: "d", vec: sv["s"], content: "d"}).do(e)
	if strings.HasPrefix(ct.name, "ivf") {
		trainIVF(2).do(e)
	}
	if err := e.s.Close(); err != nil {
		c.Failf("close", "Close: %v", err)
	}
	e.s = nil
	data, err := os.ReadFile(e.path)
	if err != nil {
		c.Fatal("%v", err)
	}
	sc := &scenario{init: e.m, touched: map[string]bool{}, vers: map[string][]row{}}
	for id, r := range e.m.rows {
		sc.vers[id] = append(sc.vers[id], r)
	}
	var names []string
	for _, th := range threads {
		var n []string
		for _, o := range th {
			n = append(n, o.name)
			for _, id := range o.touches {
				sc.touched[id] = true
			}
			for _, r := range o.writes {
				sc.vers[r.id] = append(sc.vers[r.id], r)
			}
			sc.ops = append(sc.ops, o)
		}
		names = append(names, strings.Join(n, ","))
	}
	dir := c.Dir()
	k := 0
	var st *core.SQLiteStore
	var calls []*call
	var path string
	clock := 0
	mk := func() []func() {
		k++
		c.Defer(coins(1))
		coins(1)
		path = filepath.Join(dir, fmt.Sprintf("s%d.db", k))
		os.WriteFile(path, data, 0o644)
		cfg := e.cfg
		cfg.Path = path
		s, err := core.NewWithConfig(cfg)
		if err == nil {
			err = s.Init(bg)
		}
		if err != nil {
			c.Fatal("open: %v", err)
		}
		st = s
		calls = nil
		clock = 0
		var bodies []func()
		for ti, th := range threads {
			ti, th := ti, th
			bodies = append(bodies, func() {
				for _, o := range th {
					clock++
					cl := &call{op: o, start: clock, end: math.MaxInt32, thread: ti}
					calls = append(calls, cl)
					cl.out = o.run(st)
					clock++
					cl.end = clock
				}
			})
		}
		return bodies
	}
	after := func(s *vsync.Sched, sched []int) bool {
		defer func() {
			if s.Deadlock || s.Stuck || len(s.Panics) > 0 {
				go st.Close() // a lock may still be held
			} else {
				st.Close()
			}
			for _, x := range []string{"", "-wal", "-shm"} {
				os.Remove(path + x)
			}
		}()
		if s.Deadlock || s.Stuck {
			c.Failf("deadlock", "deadlock with schedule %v: %v", sched, s.Blocked)
		}
		if len(s.Panics) > 0 {
			c.Failf("panic", "panic with schedule %v: %s", sched, s.Panics[0])
		}
		if s.TooLong {
			c.Failf("livelock", "no end after %d steps, schedule %v", s.MaxSteps, sched)
		}
		if s.Diverged {
			c.Fatal("schedule diverged")
		}
		desc := func() string {
			var l []string
			for _, cl := range calls {
				l = append(l, fmt.Sprintf("%s->%s[%d-%d]", cl.op.name, cl.out, cl.start, cl.end))
			}
			return strings.Join(l, "  ")
		}
		for _, cl := range calls {
			if strings.HasPrefix(cl.out, "BUSY") {
				c.Failf("busy", "an operation fails because another one runs: %s (schedule %v)", desc(), sched)
			}
			if cl.op.loose != nil && !(closes && cl.out == "closed") {
				if m := cl.op.loose(cl.out, sc); m != "" {
					c.Failf("search", "%s (%s; schedule %v)", m, desc(), sched)
				}
			}
			c.Outcome(cl.op.name + "->" + cl.out)
		}
		if closes {
			for _, x := range calls {
				if x.op.name != "CLOSE" {
					continue
				}
				for _, y := range calls {
					if y.op.name != "CLOSE" && y.start > x.end && y.out != "closed" {
						c.Failf("late", "an operation is not refused after Close returned: %s (schedule %v)", desc(), sched)
					}
				}
			}
			for _, y := range calls {
				early := false // nobody had called Close yet
				for _, x := range calls {
					early = early || x.op.name == "CLOSE" && x.start < y.end
				}
				if y.out == "closed" && !early {
					c.Failf("early", "an operation is refused as closed before Close: %s (schedule %v)", desc(), sched)
				}
			}
			if err := st.Close(); err != nil {
				c.Failf("close", "Close: %v", err)
			}
			cfg := e.cfg
			cfg.Path = path
			n, err := core.NewWithConfig(cfg)
			if err == nil {
				err = n.Init(bg)
			}
			if err != nil {
				c.Failf("reopen", "reopening after %s: %v", desc(), err)
			}
			st = n
		}
		fin, err := snapshot(st, 2)
		if err != nil {
			c.Failf("snapshot", "reading back after %s: %v", desc(), err)
		}
		if !linear(sc.init, calls, fin.String(), closes) {
			c.Failf("linear", "no sequential order explains %s with final state %s (schedule %v)", desc(), fin, sched)
		}
		// quiescent: the index agrees with the rows
		for _, q := range queries {
			got, err := st.Search(bg, q, core.SearchOptions{TopK: 20})
			if err != nil {
				c.Failf("search", "Search after %s: %v", desc(), err)
			}
			checkBest(c, fmt.Sprintf("Search after %s (schedule %v)", desc(), sched), got, fin.eligible(q, refCos, "", nil, 0, nil), 20, fin.rows)
		}
		got, err := st.HybridSearch(bg, nil, "a OR b OR c OR d OR ba OR bc", core.HybridSearchOptions{SearchOptions: core.SearchOptions{TopK: 20}})
		if err != nil || len(got) != len(fin.rows) {
			c.Failf("fts", "keyword search after %s finds %s (%v), rows are %v", desc(), resStr(got), err, fin.ids())
		}
		c.State(fin.String())
		return true
	}
	stt := vsync.Explore(bound, false, 4000, names, mk, after, func() bool { return !c.W.Stop() })
	c.Count("schedules", stt.Schedules)
	c.Count("sched_points", stt.Points)
	c.Trans(stt.Steps)
	if !stt.Complete {
		c.W.Cut()
	}
}

func concCfgs() []cfgT {
	return []cfgT{{"plain", 2, nil}, {"hnsw", 2, func(c *core.Config) { c.HNSW.Enabled = true }}, {"ivf", 2, func(c *core.Config) {
		c.IndexType = core.IndexTypeIVF
		c.IVF.Enabled = true
		c.IVF.NCentroids = 2
		c.IVF.NProbe = 2
	}}}
}

func init() {
	vk.Register(&vk.Check{ID: "C13", Rule: "every pair of 18 operations run concurrently on a prepared store (linear, HNSW, IVF), and selected triples and two-operation threads: every schedule up to the preemption bound over lock and storage calls; outcomes and final state must equal those of some sequential order, searches may only return written versions, nothing deadlocks, and at the end every index agrees with the rows",
		Run: func(w *vk.W) {
			ops := cops()
			for _, ct := range concCfgs() {
				for i := range ops {
					for j := i; j < len(ops); j++ {
						if ops[i].touches == nil && ops[j].touches == nil && ops[i].name != "CC(c2)" && ops[i].name != "UD(d1)" && j > i {
							continue // two readers
						}
						i, j, ct := i, j, ct
						bound := w.Pick(2, 4)
						w.Case(fmt.Sprintf("%s|%s||%s|b%d", ct.name, ops[i].name, ops[j].name, bound), func(c *vk.C) {
							concurrent(c, ct, [][]cop{{ops[i]}, {ops[j]}}, bound, false)
						})
					}
				}
			}
			up, up2, upc, bat, del, clr, dc, get, sea := ops[0], ops[1], ops[2], ops[3], ops[4], ops[8], ops[9], ops[13], ops[16]
			progs := [][][]cop{
				{{up, get}, {up2, get}}, {{up, del}, {up2}}, {{del, up}, {del, up2}}, {{up}, {del}, {up2}}, {{bat}, {del}, {up}}, {{clr, up}, {up2}}, {{upc, get}, {clr}, {sea}},
				{{up2}, {dc}, {get}}, {{bat, del}, {up, get}}, {{up, sea}, {del}}, {{del, sea}, {up2}},
			}
			for _, ct := range concCfgs() {
				for pi, p := range progs {
					pi, p, ct := pi, p, ct
					bound := w.Pick(1, 3)
					w.Case(fmt.Sprintf("%s|prog%d|b%d", ct.name, pi, bound), func(c *vk.C) { concurrent(c, ct, p, bound, false) })
				}
			}
		}})
}
