package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

// ---------------------------------------------------------------- graph model

type gnode struct {
	id, content, typ string
	vec              []float32
	props            map[string]any
}

type gedge struct {
	id, from, to, typ string
	w                 float64
	vec               []float32
	props             map[string]any
}

type gmodel struct {
	nodes map[string]gnode
	edges map[string]gedge
}

func newGModel() *gmodel { return &gmodel{map[string]gnode{}, map[string]gedge{}} }

func (m *gmodel) clone() *gmodel {
	n := newGModel()
	for k, v := range m.nodes {
		n.nodes[k] = v
	}
	for k, v := range m.edges {
		n.edges[k] = v
	}
	return n
}

func propStr(p map[string]any) string {
	if len(p) == 0 {
		return "{}"
	}
	b, _ := json.Marshal(p)
	return string(b)
}

func (n gnode) String() string {
	return fmt.Sprintf("%s/%s/%q/%v/%s", n.id, n.typ, n.content, n.vec, propStr(n.props))
}
func (e gedge) String() string {
	return fmt.Sprintf("%s:%s->%s/%s/%v/%v/%s", e.id, e.from, e.to, e.typ, e.w, e.vec, propStr(e.props))
}

func (m *gmodel) String() string {
	var l []string
	for _, n := range m.nodes {
		l = append(l, n.String())
	}
	for _, e := range m.edges {
		l = append(l, e.String())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (m *gmodel) delNode(id string) bool {
	if _, ok := m.nodes[id]; !ok {
		return false
	}
	delete(m.nodes, id)
	for k, e := range m.edges {
		if e.from == id || e.to == id {
			delete(m.edges, k)
		}
	}
	return true
}

func (m *gmodel) putNode(n gnode) bool {
	if n.id == "" || len(n.vec) == 0 || badProps(n.props) {
		return false
	}
	m.nodes[n.id] = n
	return true
}

func badProps(p map[string]any) bool { _, err := json.Marshal(p); return err != nil }

func (m *gmodel) putEdge(e gedge) bool {
	_, ok1 := m.nodes[e.from]
	_, ok2 := m.nodes[e.to]
	if e.id == "" || !ok1 || !ok2 || badProps(e.props) {
		return false
	}
	if e.w == 0 {
		e.w = 1 // documented default weight
	}
	m.edges[e.id] = e
	return true
}

func toNode(n gnode) *graph.GraphNode {
	return &graph.GraphNode{ID: n.id, Vector: append([]float32(nil), n.vec...), Content: n.content, NodeType: n.typ, Properties: n.props}
}
func toEdge(e gedge) *graph.GraphEdge {
	return &graph.GraphEdge{ID: e.id, FromNodeID: e.from, ToNodeID: e.to, EdgeType: e.typ, Weight: e.w, Vector: e.vec, Properties: e.props}
}
func fromNode(n *graph.GraphNode) gnode {
	return gnode{id: n.ID, content: n.Content, typ: n.NodeType, vec: n.Vector, props: n.Properties}
}
func fromEdge(e *graph.GraphEdge) gedge {
	return gedge{id: e.ID, from: e.FromNodeID, to: e.ToNodeID, typ: e.EdgeType, w: e.Weight, vec: e.Vector, props: e.Properties}
}

type genv struct {
	c        *vk.C
	path     string
	s        *core.SQLiteStore
	g        *graph.GraphStore
	m        *gmodel
	hnsw     bool
	metric   core.SimilarityFunc
	sim      func(a, b []float32) float64
	loose    bool // run only: outcomes are not checked
	rec      bool // run only: outcomes are recorded
	err      error
	res      *graph.BatchResult
	wantFail int
}

func newGEnv(c *vk.C) *genv { return newGEnvM(c, nil, refCos) }

func newGEnvM(c *vk.C, f core.SimilarityFunc, sim func(a, b []float32) float64) *genv {
	e := &genv{c: c, path: filepath.Join(c.Dir(), "g.db"), m: newGModel(), metric: f, sim: sim}
	e.open()
	c.Defer(func() { e.s.Close() })
	return e
}

func (e *genv) open() {
	cf := baseCfg(e.path, 2)
	if e.metric != nil {
		cf.SimilarityFn = e.metric
	}
	s, err := core.NewWithConfig(cf)
	if err == nil {
		err = s.Init(bg)
	}
	if err != nil {
		e.c.Failf("open", "open: %v", err)
	}
	e.s = s
	e.g = graph.NewGraphStore(s)
	if err := e.g.InitGraphSchema(bg); err != nil {
		e.c.Failf("open", "InitGraphSchema: %v", err)
	}
	if e.hnsw {
		if err := e.g.EnableHNSWIndex(2); err != nil {
			e.c.Failf("open", "EnableHNSWIndex: %v", err)
		}
	}
}

func (e *genv) reopen() {
	if err := e.s.Close(); err != nil {
		e.c.Failf("close", "Close: %v", err)
	}
	e.open()
}

type gop struct {
	name string
	do   func(e *genv)
}

func (e *genv) outcome(what string, err error, ok bool) {
	if e.rec {
		e.err = err
		return
	}
	if e.loose {
		if err != nil && strings.HasPrefix(outcome(err), "BUSY") {
			e.c.Failf("busy", "%s fails because another operation runs: %v", what, err)
		}
		return
	}
	if ok && err != nil {
		e.c.Failf("refused", "%s: %v", what, err)
	}
	if !ok && err == nil {
		e.c.Failf("accepted", "%s succeeds, it should be refused", what)
	}
}

func gopNode(n gnode) gop {
	return gop{"N(" + n.String() + ")", func(e *genv) {
		ok := e.m.putNode(n)
		e.outcome("UpsertNode "+n.String(), e.g.UpsertNode(bg, toNode(n)), ok)
	}}
}
func gopEdge(x gedge) gop {
	return gop{"E(" + x.String() + ")", func(e *genv) {
		ok := e.m.putEdge(x)
		e.outcome("UpsertEdge "+x.String(), e.g.UpsertEdge(bg, toEdge(x)), ok)
	}}
}
func gopDelNode(id string) gop {
	return gop{"DN(" + id + ")", func(e *genv) {
		ok := e.m.delNode(id)
		e.outcome("DeleteNode "+id, e.g.DeleteNode(bg, id), ok)
	}}
}
func gopDelEdge(id string) gop {
	return gop{"DE(" + id + ")", func(e *genv) {
		_, ok := e.m.edges[id]
		delete(e.m.edges, id)
		e.outcome("DeleteEdge "+id, e.g.DeleteEdge(bg, id), ok)
	}}
}

func (e *genv) counts(what string, r *graph.BatchResult, err error, ok, fail int) {
	if e.rec {
		e.err, e.res, e.wantFail = err, r, fail
		return
	}
	if e.loose {
		e.outcome(what, err, ok > 0)
		return
	}
	if err != nil {
		e.c.Failf("refused", "%s: %v", what, err)
	}
	if r.SuccessCount != ok || r.FailedCount != fail {
		e.c.Failf("counts", "%s reports %d done, %d failed; want %d and %d", what, r.SuccessCount, r.FailedCount, ok, fail)
	}
}

func gopNodes(label string, l ...gnode) gop {
	return gop{"NB(" + label + ")", func(e *genv) {
		var x []*graph.GraphNode
		ok, bad := 0, 0
		for _, n := range l {
			if n.id == "nil" {
				x = append(x, nil)
				bad++
				continue
			}
			x = append(x, toNode(n))
			if e.m.putNode(n) {
				ok++
			} else {
				bad++
			}
		}
		r, err := e.g.UpsertNodesBatch(bg, x)
		e.counts("UpsertNodesBatch "+label, r, err, ok, bad)
	}}
}
func gopEdges(label string, l ...gedge) gop {
	return gop{"EB(" + label + ")", func(e *genv) {
		var x []*graph.GraphEdge
		ok, bad := 0, 0
		for _, n := range l {
			if n.id == "nil" {
				x = append(x, nil)
				bad++
				continue
			}
			x = append(x, toEdge(n))
			if e.m.putEdge(n) {
				ok++
			} else {
				bad++
			}
		}
		r, err := e.g.UpsertEdgesBatch(bg, x)
		e.counts("UpsertEdgesBatch "+label, r, err, ok, bad)
	}}
}
func gopDelNodes(ids ...string) gop {
	return gop{"DNB" + fmt.Sprint(ids), func(e *genv) {
		ok := 0
		for _, id := range ids {
			if e.m.delNode(id) {
				ok++
			}
		}
		r, err := e.g.DeleteNodesBatch(bg, ids)
		e.counts("DeleteNodesBatch", r, err, ok, len(ids)-ok)
	}}
}
func gopDelEdges(ids ...string) gop {
	return gop{"DEB" + fmt.Sprint(ids), func(e *genv) {
		ok := 0
		for _, id := range ids {
			if _, has := e.m.edges[id]; has {
				ok++
				delete(e.m.edges, id)
			}
		}
		r, err := e.g.DeleteEdgesBatch(bg, ids)
		e.counts("DeleteEdgesBatch", r, err, ok, len(ids)-ok)
	}}
}

func gopExec(label string, nu []gnode, nd []string, eu []gedge, ed []string) gop {
	return gop{"XB(" + label + ")", func(e *genv) {
		o := &graph.BatchGraphOperation{NodeDeletes: nd, EdgeDeletes: ed}
		ok, bad := 0, 0
		cnt := func(b bool) {
			if b {
				ok++
			} else {
				bad++
			}
		}
		for _, n := range nu {
			o.NodeUpserts = append(o.NodeUpserts, toNode(n))
			cnt(e.m.putNode(n))
		}
		for _, id := range nd {
			cnt(e.m.delNode(id))
		}
		for _, x := range eu {
			o.EdgeUpserts = append(o.EdgeUpserts, toEdge(x))
			cnt(e.m.putEdge(x))
		}
		for _, id := range ed {
			_, has := e.m.edges[id]
			delete(e.m.edges, id)
			cnt(has)
		}
		r, err := e.g.ExecuteBatch(bg, o)
		e.counts("ExecuteBatch "+label, r, err, ok, bad)
	}}
}

var (
	gopReopen = gop{"REOPEN", func(e *genv) { e.reopen() }}
	gopCore   = gop{"CORE", func(e *genv) { // the vector store next door
		if err := e.s.Upsert(bg, &core.Embedding{ID: "a", Vector: []float32{9, 9}, Content: "other"}); err != nil {
			e.c.Failf("core", "%v", err)
		}
		if err := e.s.Clear(bg); err != nil {
			e.c.Failf("core", "%v", err)
		}
	}}
)

func gn(id, typ string, v []float32) gnode { return gnode{id: id, typ: typ, content: "c" + id, vec: v} }

func graphOps() []gop {
	a1 := gn("a", "T", sv["p"])
	a2 := gnode{id: "a", typ: "t", content: "", vec: sv["r"], props: map[string]any{"k": "v'\"", "n": 1.5, "A": true, "l": []any{"x", 2.0}}}
	b1 := gn("A", "T", sv["q"])
	c1 := gnode{id: "c", vec: sv["s"], content: "ü\n<&", props: map[string]any{}}
	bad := gnode{id: "x", vec: sv["p"], props: map[string]any{"f": func() {}}}
	e1 := gedge{id: "e1", from: "a", to: "A", typ: "K", w: 2}
	e1b := gedge{id: "e1", from: "A", to: "c", typ: "k", w: 0.25, vec: []float32{1, 2}, props: map[string]any{"p": "q"}}
	e2 := gedge{id: "E1", from: "a", to: "a", w: -1}
	e3 := gedge{id: "e3", from: "A", to: "a", typ: "K"}
	dang := gedge{id: "e9", from: "a", to: "zz", typ: "K", w: 1}
	return []gop{
		gopNode(a1), gopNode(a2), gopNode(b1), gopNode(c1), gopNode(gnode{id: "", vec: sv["p"]}),
		gopEdge(e1), gopEdge(e1b), gopEdge(e2), gopEdge(e3), gopEdge(dang),
		gopNodes("a2,b,a1", a2, b1, a1), gopNodes("bad,c", gnode{id: "nil"}, gnode{id: "y"}, bad, c1),
		gopEdges("e1,dang,e1b,e2", e1, dang, e1b, e2),
		gopExec("+c +bad -a +e1b +e3 -e2", []gnode{c1, bad}, []string{"a"}, []gedge{e1b, e3}, []string{"E1"}),
		gopExec("+a +b +e1 +badedge -e1", []gnode{a1, b1}, nil, []gedge{e1, {id: "e8", from: "a", to: "A", props: map[string]any{"f": func() {}}}, e3}, []string{"e1"}),
		gopDelNode("a"), gopDelNode("A"), gopDelEdge("e1"), gopDelNodes("a", "zz", "c"), gopDelEdges("e1", "zz", "E1"),
		gopReopen, gopCore,
	}
}

// observe compares every graph read with the model.
func (e *genv) observe() {
	c, m, g := e.c, e.m, e.g
	var ids, eids []string
	for _, id := range []string{"a", "A", "c", "x", "y", "zz", ""} {
		ids = append(ids, id)
		n, err := g.GetNode(bg, id)
		w, ok := m.nodes[id]
		if ok != (err == nil) {
			c.Failf("node", "GetNode(%q): %v, the model has it: %v", id, err, ok)
		}
		if ok && fromNode(n).String() != w.String() {
			c.Failf("node", "GetNode(%s) = %s, written %s", id, fromNode(n), w)
		}
		for _, dir := range []string{"in", "out", "both", ""} {
			l, err := g.GetEdges(bg, id, dir)
			if err != nil {
				c.Failf("edges", "GetEdges(%s,%s): %v", id, dir, err)
			}
			e.sameEdges(fmt.Sprintf("GetEdges(%s,%q)", id, dir), l, func(x gedge) bool {
				return dir != "in" && x.from == id || dir != "out" && x.to == id
			})
		}
	}
	if _, err := g.GetEdges(bg, "a", "sideways"); err == nil {
		c.Failf("edges", "an invalid direction is accepted")
	}
	eids = append(eids, "e1", "E1", "e3", "e8", "e9", "zz")
	for _, x := range m.edges {
		if !contains(eids, x.id) {
			eids = append(eids, x.id)
		}
	}
	for _, x := range m.nodes {
		if !contains(ids, x.id) {
			ids = append(ids, x.id)
		}
	}
	nl, err := g.GetNodesBatch(bg, ids)
	if err != nil {
		c.Failf("nodes", "GetNodesBatch: %v", err)
	}
	e.sameNodes("GetNodesBatch", nl, func(gnode) bool { return true })
	el, err := g.GetEdgesBatch(bg, eids)
	if err != nil {
		c.Failf("edges", "GetEdgesBatch: %v", err)
	}
	e.sameEdges("GetEdgesBatch", el, func(gedge) bool { return true })
	for _, f := range []*graph.GraphFilter{nil, {}, {NodeTypes: []string{"T"}}, {NodeTypes: []string{"t", "T"}}, {NodeTypes: []string{""}}, {NodeTypes: []string{"t' OR 1=1 --"}}} {
		l, err := g.GetAllNodes(bg, f)
		if err != nil {
			c.Failf("nodes", "GetAllNodes: %v", err)
		}
		e.sameNodes(fmt.Sprintf("GetAllNodes(%v)", f), l, func(n gnode) bool {
			if f == nil || len(f.NodeTypes) == 0 {
				return true
			}
			return has(f.NodeTypes, n.typ)
		})
	}
	st, err := g.GetGraphStatistics(bg)
	if err != nil {
		c.Failf("stats", "GetGraphStatistics: %v", err)
	}
	if st.NodeCount != len(m.nodes) || st.EdgeCount != len(m.edges) {
		c.Failf("stats", "statistics count %d nodes and %d edges, there are %d and %d", st.NodeCount, st.EdgeCount, len(m.nodes), len(m.edges))
	}
	c.State(m.String())
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (e *genv) sameNodes(what string, l []*graph.GraphNode, f func(gnode) bool) {
	var got, want []string
	for _, n := range l {
		got = append(got, fromNode(n).String())
	}
	for _, n := range e.m.nodes {
		if f(n) {
			want = append(want, n.String())
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		e.c.Failf("nodes", "%s = %v, want %v", what, got, want)
	}
}

func (e *genv) sameEdges(what string, l []*graph.GraphEdge, f func(gedge) bool) {
	var got, want []string
	for _, n := range l {
		got = append(got, fromEdge(n).String())
	}
	for _, n := range e.m.edges {
		if f(n) {
			want = append(want, n.String())
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		e.c.Failf("edges", "%s = %v, want %v", what, got, want)
	}
}

// gseqs runs every sequence of ops up to the depth after a preparation.
func gseqs(w *vk.W, label string, ops []gop, depth int, prep func(e *genv), obs func(e *genv)) {
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			s := append([]int(nil), seq...)
			name := label
			for _, i := range s {
				name += fmt.Sprintf(",%d", i)
			}
			w.Case(name, func(c *vk.C) {
				e := newGEnv(c)
				if prep != nil {
					prep(e)
				}
				for _, i := range s {
					c.Logf("%s", ops[i].name)
					ops[i].do(e)
					c.Trans(1)
				}
				obs(e)
			})
			return
		}
		for i := range ops {
			rec(append(seq, i))
		}
	}
	rec(nil)
}

var gExport = []graph.ExportFormat{graph.FormatJSON, graph.FormatGraphML, graph.FormatGEXF}

// roundTrip exports the graph, imports it elsewhere and compares.
func (e *genv) roundTrip(f graph.ExportFormat, into func(e *genv)) {
	c := e.c
	var buf bytes.Buffer
	if err := e.g.Export(bg, &buf, f); err != nil {
		c.Failf("export", "Export %s: %v", f, err)
	}
	if d, err := graph.DetectFormat(bytes.NewReader(buf.Bytes())); err != nil || d != f {
		c.Failf("detect", "DetectFormat of a %s export says %q, %v", f, d, err)
	}
	n := &genv{c: c, path: filepath.Join(c.Dir(), "imp-"+string(f)+".db"), m: newGModel()}
	n.open()
	defer func() {
		n.s.Close()
		for _, x := range []string{"", "-wal", "-shm"} {
			os.Remove(n.path + x)
		}
	}()
	if into != nil {
		into(n)
	}
	if err := n.g.Import(bg, bytes.NewReader(buf.Bytes()), f); err != nil {
		c.Failf("import", "Import %s: %v", f, err)
	}
	for _, x := range e.m.nodes {
		n.m.putNode(x)
	}
	for _, x := range e.m.edges {
		n.m.putEdge(x)
	}
	n.observe()
}

func init() {
	vk.Register(&vk.Check{ID: "C19", Rule: "every sequence of up to 3/4 graph operations (22 operations: node and edge upserts, single and batch, with invalid members, mixed batches, deletions, reopening) from an empty and a prepared graph; every combination of members of one mixed batch; then every read compared with a reference graph",
		Run: func(w *vk.W) {
			ops := graphOps()
			full := func(e *genv) {
				for _, i := range []int{0, 2, 3, 5, 7, 8} {
					ops[i].do(e)
				}
			}
			d := w.Pick(2, 3)
			for k := 1; k <= d; k++ {
				gseqs(w, "empty", ops, k, nil, func(e *genv) { e.observe() })
				gseqs(w, "full", ops, k, full, func(e *genv) { e.observe() })
			}
			graphFaults(w)
			graphSizes(w)
			graphMixes(w, full)
			if !w.Thorough() {
				sub := []gop{ops[0], ops[2], ops[5], ops[6], ops[10], ops[12], ops[13], ops[15], ops[17], ops[18], ops[20]}
				gseqs(w, "sub", sub, 3, nil, func(e *genv) { e.observe() })
				gseqs(w, "subfull", sub, 3, full, func(e *genv) { e.observe() })
			}
		}})
	vk.Register(&vk.Check{ID: "C21", Rule: "every sequence of up to 2/3 graph operations, exported in every format and imported into an empty and a populated store; a grid of awkward values; every set of seven parallel, opposite and looping edges; sizes up to 520/2100; every truncation of an export; a fault at every storage call of exports and imports; edges whose nodes are missing",
		Run: runC21})
}

// graphMixes: every combination of members in one mixed batch.
func graphMixes(w *vk.W, full func(e *genv)) {
	nodes := []gnode{gnode{id: "a", typ: "t", vec: sv["s"], props: map[string]any{"new": true}}, gn("d", "T", sv["q"]), gn("c", "T", sv["r"])}
	gone := []string{"a", "A", "none"}
	edges := []gedge{{id: "e1", from: "A", to: "a", typ: "n", w: 3}, {id: "e9", from: "d", to: "A", typ: "K", w: -2}, {id: "e8", from: "c", to: "d"}}
	cut := []string{"e1", "E1", "e9"}
	for nm := 0; nm < 8; nm++ {
		for dm := 0; dm < 8; dm++ {
			for _, filled := range []bool{false, true} {
				nm, dm, filled := nm, dm, filled
				w.Case(fmt.Sprintf("mix|%d|%d|%v", nm, dm, filled), func(c *vk.C) {
					var nu []gnode
					var nd []string
					for i := 0; i < 3; i++ {
						if nm>>i&1 == 1 {
							nu = append(nu, nodes[i])
						}
						if dm>>i&1 == 1 {
							nd = append(nd, gone[i])
						}
					}
					for em := 0; em < 8; em++ {
						for xm := 0; xm < 8; xm += w.Pick(em%2+1, 1) {
							var eu []gedge
							var ed []string
							for i := 0; i < 3; i++ {
								if em>>i&1 == 1 {
									eu = append(eu, edges[i])
								}
								if xm>>i&1 == 1 {
									ed = append(ed, cut[i])
								}
							}
							e := newGEnv(c)
							if filled {
								full(e)
							}
							gopExec(fmt.Sprintf("%d %d %d %d", nm, dm, em, xm), nu, nd, eu, ed).do(e)
							c.Trans(1)
							e.observe()
							e.s.Close()
						}
					}
				})
			}
		}
	}
}

func runC21(w *vk.W) {
	ops := graphOps()
	full := func(e *genv) {
		for _, i := range []int{0, 2, 3, 5, 7, 8} {
			ops[i].do(e)
		}
	}
	obs := func(e *genv) {
		for _, f := range gExport {
			e.roundTrip(f, nil)
			e.roundTrip(f, full)
		}
	}
	for k := 1; k <= w.Pick(1, 3); k++ {
		gseqs(w, "empty", ops, k, nil, obs)
	}
	for k := 0; k <= w.Pick(2, 2); k++ {
		gseqs(w, "full", ops, k, full, obs)
	}
	texts := []string{"", "x", " lead and trail ", "a<b>&\"'", "line\nbreak\r\nand\ttab", "ü名😀", "]]>", "null", "{}", "0", "graphml", "<gexf>"}
	weights := []float64{1, -1, 0.1, 1e-9, 123456.7891234, 1e300, 0.333333333333333314829616256247}
	vecs := [][]float32{{1}, {0, 0}, {1e-20, -3.4e38}, {0.1, 0.2, 0.3}, {-0.5, 1e10}}
	props := []map[string]any{nil, {}, {"k": "v"}, {"": ""}, {"n": 1.5, "A": false, "nil": nil, "l": []any{1.0, "a", map[string]any{"x": "y"}}}, {"a<b": "\"&>"}, {"large": 1e21, "neg": -0.25}}
	for ti, t := range texts {
		for vi, v := range vecs {
			for pi, p := range props {
				t, v, p, w0 := t, v, p, weights[(ti+vi+pi)%len(weights)]
				w.Case(fmt.Sprintf("val|%d|%d|%d", ti, vi, pi), func(c *vk.C) {
					e := newGEnv(c)
					gopNode(gnode{id: "a", content: t, typ: t, vec: v, props: p}).do(e)
					gopNode(gnode{id: "A", content: "x", vec: v, props: map[string]any{"t": t}}).do(e)
					gopEdge(gedge{id: "e1", from: "a", to: "A", typ: t, w: w0, vec: v, props: p}).do(e)
					gopEdge(gedge{id: "E1", from: "A", to: "A", w: -w0, props: map[string]any{"t": t}}).do(e)
					for _, f := range gExport {
						e.roundTrip(f, nil)
					}
				})
			}
		}
	}
	// parallel and opposite edges, loops, edges alike in all but one respect
	multi := []gedge{{id: "e1", from: "a", to: "A", typ: "K", w: 1}, {id: "E1", from: "a", to: "A", typ: "K", w: 1}, {id: "e2", from: "a", to: "A", typ: "k", w: 1}, {id: "e3", from: "A", to: "a", typ: "K", w: 1}, {id: "e4", from: "a", to: "a", typ: "K", w: 1}, {id: "e5", from: "a", to: "a", typ: "K", w: 2}, {id: "a", from: "A", to: "c", w: 1}}
	for set := 0; set < 1<<len(multi); set++ {
		set := set
		w.Case(fmt.Sprintf("multi|%d", set), func(c *vk.C) {
			e := newGEnv(c)
			for _, id := range []string{"a", "A", "c"} {
				gopNode(gnode{id: id, content: "same", typ: "T", vec: []float32{1, 0}}).do(e)
			}
			for i, x := range multi {
				if set>>i&1 == 1 {
					gopEdge(x).do(e)
				}
			}
			for _, f := range gExport {
				e.roundTrip(f, nil)
			}
		})
	}
	for _, n := range []int{11, 64, 101, 250, w.Pick(520, 2100)} {
		n := n
		w.Case(fmt.Sprintf("size|%d", n), func(c *vk.C) {
			e := newGEnv(c)
			for i := 0; i < n; i++ {
				gopNode(gnode{id: fmt.Sprint("n", i), content: fmt.Sprint("c", i), typ: "T", vec: []float32{float32(i), 1}}).do(e)
			}
			for i := 0; i < n; i++ {
				gopEdge(gedge{id: fmt.Sprint("e", i), from: fmt.Sprint("n", i), to: fmt.Sprint("n", (i*7+1)%n), typ: "K", w: float64(i + 1)}).do(e)
			}
			for _, f := range gExport {
				e.roundTrip(f, nil)
			}
		})
	}
	graphReadFaults(w, "Export")
	// a failure anywhere in an import is reported, and importing again completes it
	for _, f := range gExport {
		f := f
		w.Case("importfault|"+string(f), func(c *vk.C) {
			e := newGEnv(c)
			full(e)
			var buf bytes.Buffer
			if err := e.g.Export(bg, &buf, f); err != nil {
				c.Failf("export", "%v", err)
			}
			eachFault(c, 200, func(ft *fault) bool {
				n := &genv{c: c, path: filepath.Join(c.Dir(), "imp.db"), m: newGModel()}
				n.open()
				defer n.s.Close()
				ft.arm()
				err := n.g.Import(bg, bytes.NewReader(buf.Bytes()), f)
				vsql.SetHook(nil)
				c.Trans(1)
				if err != nil {
					if err := n.g.Import(bg, bytes.NewReader(buf.Bytes()), f); err != nil {
						c.Failf("importfault", "Import %s again after a failure at %s: %v", f, ft.at, err)
					}
				}
				if got := n.readBack().String(); got != e.m.String() {
					c.Failf("importfault", "Import %s with a failure at %s (error %v, then repeated if it failed) gives %s, want %s", f, ft.at, err, got, e.m)
				}
				return true
			})
		})
	}
	// a damaged file is reported, never taken for a complete graph
	for _, f := range gExport {
		f := f
		w.Case("trunc|"+string(f), func(c *vk.C) {
			e := newGEnv(c)
			full(e)
			var buf bytes.Buffer
			if err := e.g.Export(bg, &buf, f); err != nil {
				c.Failf("export", "%v", err)
			}
			whole := bytes.TrimRight(buf.Bytes(), "\n ")
			x := newGEnv(c)
			for n := 0; n < len(whole); n++ {
				err := x.g.Import(bg, bytes.NewReader(whole[:n]), f)
				if err == nil {
					c.Failf("trunc", "importing the first %d of %d bytes of a %s export reports success", n, len(whole), f)
				}
				c.Trans(1)
			}
		})
		for _, part := range []string{"missing node", "edge without id", "node without id"} {
			part := part
			w.Case("lost|"+string(f)+"|"+part, func(c *vk.C) {
				e := newGEnv(c)
				full(e)
				var buf bytes.Buffer
				if err := e.g.Export(bg, &buf, f); err != nil {
					c.Failf("export", "%v", err)
				}
				s := buf.String()
				switch part {
				case "missing node": // an edge refers to a node the file lacks
					s = strings.Replace(s, map[graph.ExportFormat]string{graph.FormatJSON: `"to_node_id": "A"`}[f], `"to_node_id": "gone"`, 1)
					if f != graph.FormatJSON {
						s = strings.Replace(buf.String(), `target="A"`, `target="gone"`, 1)
					}
				case "edge without id":
					s = strings.Replace(s, map[graph.ExportFormat]string{graph.FormatJSON: `"id": "e1"`, graph.FormatGEXF: `id="e1"`, graph.FormatGraphML: `id="e1"`}[f], map[graph.ExportFormat]string{graph.FormatJSON: `"id": ""`, graph.FormatGEXF: `id=""`, graph.FormatGraphML: `id=""`}[f], 1)
				case "node without id":
					s = strings.Replace(s, map[graph.ExportFormat]string{graph.FormatJSON: `"id": "c"`, graph.FormatGEXF: `id="c"`, graph.FormatGraphML: `id="c"`}[f], map[graph.ExportFormat]string{graph.FormatJSON: `"id": ""`, graph.FormatGEXF: `id=""`, graph.FormatGraphML: `id=""`}[f], 1)
				}
				if s == buf.String() {
					return // the export is written differently; nothing to damage
				}
				x := newGEnv(c)
				if err := x.g.Import(bg, strings.NewReader(s), f); err == nil {
					c.Failf("lost", "%s import drops a part (%s) and reports success", f, part)
				}
			})
		}
	}
}

func graphFaultSeed(ops []gop) func(c *vk.C, e *genv) {
	return func(c *vk.C, e *genv) {
		for _, i := range []int{0, 2, 3, 5, 7, 8} {
			ops[i].do(e)
		}
		e.hnsw = true
		if err := e.g.EnableHNSWIndex(2); err != nil {
			c.Fatal("%v", err)
		}
	}
}

// graphFaults lets every storage call of every graph operation fail.
func graphFaults(w *vk.W) {
	ops := graphOps()
	seed := graphFaultSeed(ops)
	for oi := range ops {
		if ops[oi].name == "REOPEN" || ops[oi].name == "CORE" {
			continue
		}
		oi := oi
		w.Case(fmt.Sprintf("fault|%s", ops[oi].name), func(c *vk.C) {
			c.Defer(gcoins(0))
			eachFault(c, 60, func(ft *fault) bool {
				gcoins(5)
				e := newGEnv(c)
				defer e.s.Close()
				seed(c, e)
				before := e.m.clone()
				full := &genv{c: c, g: e.g, s: e.s, m: e.m.clone(), rec: true}
				ft.arm()
				ops[oi].do(full)
				vsql.SetHook(nil)
				now := e.readBack()
				what := fmt.Sprintf("%s with a failure at %s", ops[oi].name, ft.at)
				switch {
				case full.err != nil:
					if now.String() != before.String() {
						c.Failf("fault", "%s returns %v but changes the graph: %s, was %s", what, full.err, now, before)
					}
				case full.res != nil && full.res.FailedCount > full.wantFail:
					for id, n := range now.nodes {
						if n.String() != before.nodes[id].String() && n.String() != full.m.nodes[id].String() && !strings.HasPrefix(ops[oi].name, "NB(a2") {
							c.Failf("fault", "%s leaves node %s", what, n)
						}
					}
				default:
					if now.String() != full.m.String() {
						c.Failf("fault", "%s reports success; the graph is %s, want %s", what, now, full.m)
					}
				}
				e.m = now
				e.observe()
				e.indexSearch()
				// and the store is still usable
				e.m = now
				ops[2].do(e)
				e.observe()
				return true
			})
		})
	}
	graphReadFaults(w, "")
}

// graphReadFaults lets every storage call of the graph reads fail whose name
// contains one of the given parts.
func graphReadFaults(w *vk.W, parts ...string) {
	ops := graphOps()
	seed := graphFaultSeed(ops)
	reads := map[string]func(g *graph.GraphStore) error{
		"GetNode":       func(g *graph.GraphStore) error { _, err := g.GetNode(bg, "a"); return err },
		"GetEdges":      func(g *graph.GraphStore) error { _, err := g.GetEdges(bg, "a", "both"); return err },
		"GetNodesBatch": func(g *graph.GraphStore) error { _, err := g.GetNodesBatch(bg, []string{"a", "A"}); return err },
		"GetEdgesBatch": func(g *graph.GraphStore) error { _, err := g.GetEdgesBatch(bg, []string{"e1", "E1"}); return err },
		"GetAllNodes":   func(g *graph.GraphStore) error { _, err := g.GetAllNodes(bg, nil); return err },
		"Neighbors": func(g *graph.GraphStore) error {
			_, err := g.Neighbors(bg, "a", graph.TraversalOptions{MaxDepth: 3})
			return err
		},
		"ShortestPath":       func(g *graph.GraphStore) error { _, err := g.ShortestPath(bg, "a", "A"); return err },
		"Connected":          func(g *graph.GraphStore) error { _, err := g.Connected(bg, "a", "c", 3); return err },
		"Subgraph":           func(g *graph.GraphStore) error { _, err := g.Subgraph(bg, []string{"a", "A", "c"}); return err },
		"PageRank":           func(g *graph.GraphStore) error { _, err := g.PageRank(bg, 5, 0.85); return err },
		"CommunityDetection": func(g *graph.GraphStore) error { _, err := g.CommunityDetection(bg); return err },
		"PredictEdges":       func(g *graph.GraphStore) error { _, err := g.PredictEdges(bg, "a", 5); return err },
		"Statistics":         func(g *graph.GraphStore) error { _, err := g.GetGraphStatistics(bg); return err },
		"HybridSearch": func(g *graph.GraphStore) error {
			_, err := g.HybridSearch(bg, &graph.HybridQuery{Vector: sv["p"], StartNodeID: "a"})
			return err
		},
		"HybridSearch(index)": func(g *graph.GraphStore) error {
			_, err := g.HybridSearch(bg, &graph.HybridQuery{Vector: sv["p"], StartNodeID: "a", TopK: 5})
			return err
		},
		"HybridSearch(filter)": func(g *graph.GraphStore) error {
			_, err := g.HybridSearch(bg, &graph.HybridQuery{Vector: sv["p"], StartNodeID: "a", GraphFilter: &graph.GraphFilter{NodeTypes: []string{"T"}}})
			return err
		},
		"GraphVectorSearch": func(g *graph.GraphStore) error {
			_, err := g.GraphVectorSearch(bg, "a", sv["p"], graph.TraversalOptions{MaxDepth: 2})
			return err
		},
		"SimilarityInGraph": func(g *graph.GraphStore) error {
			_, err := g.SimilarityInGraph(bg, "a", core.SearchOptions{TopK: 5})
			return err
		},
		"HNSWSearch":      func(g *graph.GraphStore) error { _, err := g.HNSWSearch(bg, sv["p"], 3, -2); return err },
		"EnableHNSWIndex": func(g *graph.GraphStore) error { return g.EnableHNSWIndex(2) },
		"ExportJSON":      func(g *graph.GraphStore) error { return g.ExportJSON(bg, &bytes.Buffer{}) },
		"ExportGraphML":   func(g *graph.GraphStore) error { return g.ExportGraphML(bg, &bytes.Buffer{}) },
		"ExportGEXF":      func(g *graph.GraphStore) error { return g.ExportGEXF(bg, &bytes.Buffer{}) },
	}
	var names []string
	for n := range reads {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		ok := false
		for _, p := range parts {
			ok = ok || strings.Contains(n, p)
		}
		if !ok {
			continue
		}
		w.Case("readfault|"+n, func(c *vk.C) {
			e := newGEnv(c)
			seed(c, e)
			eachFault(c, 60, func(ft *fault) bool {
				ft.arm()
				err := reads[n](e.g)
				vsql.SetHook(nil)
				if ft.fired && err == nil {
					c.Failf("readfault", "%s passes off a partial answer as complete: failure at %s", n, ft.at)
				}
				return true
			})
			e.observe()
			e.indexSearch()
		})
	}
}

// readBack reads the stored graph.
func (e *genv) readBack() *gmodel {
	m := newGModel()
	l, err := e.g.GetAllNodes(bg, nil)
	if err != nil {
		e.c.Failf("read", "%v", err)
	}
	for _, n := range l {
		m.nodes[n.ID] = fromNode(n)
		ed, err := e.g.GetEdges(bg, n.ID, "out")
		if err != nil {
			e.c.Failf("read", "%v", err)
		}
		for _, x := range ed {
			m.edges[x.ID] = fromEdge(x)
		}
	}
	return m
}

// graphSizes: batches around and above the usual chunk sizes.
func graphSizes(w *vk.W) {
	for _, n := range []int{2, 33, 101, 257, 513, w.Pick(1025, 5003)} {
		for variant := 0; variant < 4; variant++ {
			n, variant := n, variant
			w.Case(fmt.Sprintf("size|%d|%d", n, variant), func(c *vk.C) {
				e := newGEnv(c)
				var nl []gnode
				var el []gedge
				var ids, eids []string
				for i := 0; i < n; i++ {
					x := gnode{id: fmt.Sprintf("n%d", i), typ: []string{"T", "t"}[i%2], content: fmt.Sprint("c", i), vec: []float32{float32(i), 1}}
					if i%5 == 2 {
						x.props = map[string]any{"i": float64(i)}
					}
					nl, ids = append(nl, x), append(ids, x.id)
					y := gedge{id: fmt.Sprintf("e%d", i), from: "n0", to: x.id, typ: []string{"K", "k"}[i%2], w: float64(i + 1)}
					if i%7 == 3 {
						y.vec, y.props = []float32{float32(i)}, map[string]any{"p": "q"}
					}
					el, eids = append(el, y), append(eids, y.id)
				}
				all := func(step string) {
					c.Trans(1)
					c.Logf("%s", step)
					l, err := e.g.GetAllNodes(bg, nil)
					if err != nil {
						c.Failf("nodes", "GetAllNodes: %v", err)
					}
					e.sameNodes("GetAllNodes after "+step, l, func(gnode) bool { return true })
					if l, err = e.g.GetNodesBatch(bg, ids); err != nil {
						c.Failf("nodes", "GetNodesBatch: %v", err)
					}
					e.sameNodes("GetNodesBatch after "+step, l, func(gnode) bool { return true })
					x, err := e.g.GetEdgesBatch(bg, eids)
					if err != nil {
						c.Failf("edges", "GetEdgesBatch: %v", err)
					}
					e.sameEdges("GetEdgesBatch after "+step, x, func(gedge) bool { return true })
					if x, err = e.g.GetEdges(bg, "n0", "out"); err != nil {
						c.Failf("edges", "GetEdges: %v", err)
					}
					e.sameEdges("GetEdges after "+step, x, func(gedge) bool { return true })
					if _, ok := e.m.nodes["n0"]; ok {
						if l, err = e.g.Neighbors(bg, "n0", graph.TraversalOptions{MaxDepth: 1, Direction: "out"}); err != nil {
							c.Failf("neighbours", "%v", err)
						}
						e.sameNodes("Neighbors after "+step, l, func(g gnode) bool {
							for _, y := range e.m.edges {
								if y.to == g.id && g.id != "n0" {
									return true
								}
							}
							return false
						})
					}
				}
				switch variant {
				case 0:
					gopNodes("all", nl...).do(e)
					gopEdges("all", el...).do(e)
				case 1:
					gopExec("all", nl, nil, el, nil).do(e)
				case 2: // one member in the middle is refused
					bad := append([]gnode(nil), nl...)
					bad[n/2].vec = nil
					gopNodes("bad", bad...).do(e)
					all("a batch with one bad node")
					gopNodes("all", nl...).do(e)
					be := append([]gedge(nil), el...)
					be[n-1].to = "zz"
					gopEdges("bad", be...).do(e)
					all("a batch with one bad edge")
					gopEdges("all", el...).do(e)
				case 3: // every member twice, the later one counts
					first := append([]gnode(nil), nl...)
					for i := range first {
						first[i].content, first[i].props = "old", map[string]any{"old": true}
					}
					gopNodes("twice", append(first, nl...)...).do(e)
					gopEdges("all", el...).do(e)
				}
				all("writing")
				gopDelEdges(eids[n/2:]...).do(e)
				all("deleting edges")
				gopDelNodes(append([]string{"zz"}, ids[n/3:]...)...).do(e)
				all("deleting nodes")
			})
		}
	}
}
