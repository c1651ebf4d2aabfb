package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vrand"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsync"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/graph"
)

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-5*(1+math.Abs(b)) }

// dists is the breadth-first distance from start along edges of the given
// direction and types.
func (m *gmodel) dists(start, dir string, types []string) map[string]int {
	d := map[string]int{start: 0}
	q := []string{start}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		for _, e := range m.edges {
			if len(types) > 0 && !has(types, e.typ) {
				continue
			}
			for _, s := range [][2]string{{e.from, e.to}, {e.to, e.from}} {
				if (s[0] == e.from && s[1] == e.to && dir == "in" && e.from != e.to) || s[0] != x {
					continue
				}
				if dir == "out" && s[0] != e.from || dir == "in" && s[0] != e.to {
					continue
				}
				if _, ok := d[s[1]]; !ok {
					d[s[1]] = d[x] + 1
					q = append(q, s[1])
				}
			}
		}
	}
	return d
}

// products lists the edge weight products over all shortest paths.
func (m *gmodel) products(start string, types []string) map[string][]float64 {
	d := m.dists(start, "out", types)
	res := map[string][]float64{start: {1}}
	for k := 0; k <= len(m.nodes); k++ {
		for _, e := range m.edges {
			if len(types) > 0 && !has(types, e.typ) {
				continue
			}
			df, ok := d[e.from]
			if !ok || df != k || d[e.to] != k+1 {
				continue
			}
			for _, p := range res[e.from] {
				res[e.to] = append(res[e.to], p*e.w)
			}
		}
	}
	return res
}

func (e *genv) traversals() {
	c, m, g := e.c, e.m, e.g
	var ids []string
	for id := range m.nodes {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	typeSets := [][]string{nil, {"K"}, {"K", "k"}, {"none"}}
	for _, id := range append(ids, "zz") {
		for _, dir := range []string{"out", "in", "both", ""} {
			for _, et := range typeSets {
				d := m.dists(id, map[string]string{"": "both"}[dir]+dir, et)
				for _, depth := range []int{0, 1, 2, 3} {
					for _, nt := range [][]string{nil, {"T"}} {
						for _, lim := range []int{0, 1, 2} {
							max := depth
							if max <= 0 {
								max = 1
							}
							var want []int
							for n, k := range d {
								if n != id && k <= max && (nt == nil || has(nt, m.nodes[n].typ)) {
									want = append(want, k)
								}
							}
							sort.Ints(want)
							if lim > 0 && len(want) > lim {
								want = want[:lim]
							}
							what := fmt.Sprintf("Neighbors(%s, dir=%q depth=%d edges=%v nodes=%v limit=%d)", id, dir, depth, et, nt, lim)
							l, err := g.Neighbors(bg, id, graph.TraversalOptions{MaxDepth: depth, Direction: dir, EdgeTypes: et, NodeTypes: nt, Limit: lim})
							if err != nil {
								c.Failf("neighbors", "%s: %v", what, err)
							}
							seen := map[string]bool{}
							var got []int
							for _, n := range l {
								k, ok := d[n.ID]
								if !ok || seen[n.ID] || n.ID == id || k > max || nt != nil && !has(nt, n.NodeType) {
									c.Failf("neighbors", "%s returns %s (twice: %v)", what, n.ID, seen[n.ID])
								}
								if fromNode(n).String() != m.nodes[n.ID].String() {
									c.Failf("neighbors", "%s returns %s", what, fromNode(n))
								}
								seen[n.ID] = true
								got = append(got, k)
							}
							if fmt.Sprint(got) != fmt.Sprint(want) {
								c.Failf("neighbors", "%s returns nodes at distances %v, want %v (%v)", what, got, want, seen)
							}
							c.Count("queries", 1)
						}
					}
				}
			}
		}
	}
	for _, a := range append(ids, "zz") {
		out := m.dists(a, "out", nil)
		both := m.dists(a, "both", nil)
		for _, b := range append(ids, "zz") {
			e.path1(a, b, out)
			for _, depth := range []int{0, 1, 2, 3} {
				if a == b {
					continue
				}
				max := depth
				if max == 0 {
					max = 6
				}
				k, ok := both[b]
				got, err := g.Connected(bg, a, b, depth)
				if err != nil || got != (ok && k <= max) {
					c.Failf("connected", "Connected(%s,%s,%d) = %v %v, distance %d %v", a, b, depth, got, err, k, ok)
				}
			}
		}
	}
	for mask := 0; mask < 2<<len(ids); mask++ {
		var req []string
		if mask>>len(ids) == 1 {
			req = append(req, "zz") // unknown
		}
		in := map[string]bool{}
		for i, id := range ids {
			if mask&(1<<i) != 0 {
				req = append(req, id)
				in[id] = true
			}
		}
		if mask == 1 && len(ids) > 0 {
			req = append(req, ids[0]) // named twice
		}
		r, err := g.Subgraph(bg, req)
		if err != nil {
			c.Failf("subgraph", "Subgraph: %v", err)
		}
		what := fmt.Sprintf("Subgraph(%v)", req)
		e.sameNodes(what, r.Nodes, func(n gnode) bool { return in[n.id] })
		e.sameEdges(what, r.Edges, func(x gedge) bool { return in[x.from] && in[x.to] })
	}
}

func (e *genv) path1(a, b string, out map[string]int) {
	c, m := e.c, e.m
	p, err := e.g.ShortestPath(bg, a, b)
	k, ok := out[b]
	if _, exists := m.nodes[b]; !exists {
		ok = false
	}
	what := fmt.Sprintf("ShortestPath(%s,%s)", a, b)
	if !ok {
		if err == nil {
			c.Failf("path", "%s finds a path that does not exist", what)
		}
		return
	}
	if err != nil {
		c.Failf("path", "%s: %v, distance is %d", what, err, k)
	}
	if p.Distance != k || len(p.Nodes) != k+1 || len(p.Edges) != k || p.Nodes[0].ID != a || p.Nodes[k].ID != b {
		c.Failf("path", "%s has distance %d with %d nodes and %d edges, want %d", what, p.Distance, len(p.Nodes), len(p.Edges), k)
	}
	sum := 0.0
	for i, x := range p.Edges {
		if x.FromNodeID != p.Nodes[i].ID || x.ToNodeID != p.Nodes[i+1].ID || fromEdge(x).String() != m.edges[x.ID].String() {
			c.Failf("path", "%s: step %d is edge %s between %s and %s", what, i, fromEdge(x), p.Nodes[i].ID, p.Nodes[i+1].ID)
		}
		sum += x.Weight
	}
	if !near(p.Weight, sum) {
		c.Failf("path", "%s reports weight %v, its edges add up to %v", what, p.Weight, sum)
	}
}

func (m *gmodel) component() map[string]string {
	comp := map[string]string{}
	for id := range m.nodes {
		least := id
		for n := range m.dists(id, "both", nil) {
			if n < least {
				least = n
			}
		}
		comp[id] = least
	}
	return comp
}

func (e *genv) analytics() {
	c, m, g := e.c, e.m, e.g
	n := float64(len(m.nodes))
	comp := m.component()
	roots := map[string]bool{}
	for _, r := range comp {
		roots[r] = true
	}
	st, err := g.GetGraphStatistics(bg)
	if err != nil {
		c.Failf("stats", "%v", err)
	}
	deg, den := 0.0, 0.0
	if n > 0 {
		deg = 2 * float64(len(m.edges)) / n
	}
	if n > 1 {
		den = float64(len(m.edges)) / (n * (n - 1))
	}
	if st.NodeCount != int(n) || st.EdgeCount != len(m.edges) || st.ConnectedComponents != len(roots) || !near(st.AverageDegree, deg) || !near(st.Density, den) {
		c.Failf("stats", "statistics %+v; want %v nodes %d edges %d components degree %v density %v", *st, n, len(m.edges), len(roots), deg, den)
	}
	outdeg := map[string]int{}
	for _, x := range m.edges {
		outdeg[x.from]++
	}
	for _, par := range []struct {
		it int
		d  float64
	}{{200, 0.85}, {0, 0}, {200, 0.5}, {1, 0.85}, {1, 1}, {1, 0.99}, {200, 1.5}, {200, -1}} {
		pr, err := g.PageRank(bg, par.it, par.d)
		if err != nil {
			c.Failf("pagerank", "%v", err)
		}
		d := par.d
		if d <= 0 || d > 1 {
			d = 0.85 // the default
		}
		score := map[string]float64{}
		for i, x := range pr {
			if _, dup := score[x.NodeID]; dup {
				c.Failf("pagerank", "PageRank lists %s twice", x.NodeID)
			}
			if _, ok := m.nodes[x.NodeID]; !ok {
				c.Failf("pagerank", "PageRank lists unknown node %s", x.NodeID)
			}
			if i > 0 && pr[i-1].Score < x.Score {
				c.Failf("pagerank", "PageRank is not sorted: %v", pr)
			}
			score[x.NodeID] = x.Score
		}
		if len(score) != len(m.nodes) {
			c.Failf("pagerank", "PageRank lists %d of %d nodes", len(score), len(m.nodes))
		}
		for id := range m.nodes {
			want := (1 - d) / n
			for _, x := range m.edges {
				if x.to == id {
					prev := score[x.from]
					if par.it == 1 {
						prev = 1 / n
					}
					want += d * prev / float64(outdeg[x.from])
				}
			}
			if math.Abs(want-score[id]) > 2e-6 {
				c.Failf("pagerank", "PageRank(%d,%v) of %s is %v, the equation gives %v", par.it, par.d, id, score[id], want)
			}
		}
	}
	cs, err := g.CommunityDetection(bg)
	if err != nil {
		c.Failf("community", "%v", err)
	}
	seen := map[string]bool{}
	idSeen := map[int]bool{}
	for i, x := range cs {
		if !near(x.Score, float64(len(x.Nodes))/n) {
			c.Failf("community", "communities %+v: the score is not the share of the %v nodes", cs, n)
		}
		if len(x.Nodes) == 0 || idSeen[x.ID] || i > 0 && len(cs[i-1].Nodes) < len(x.Nodes) {
			c.Failf("community", "communities %+v: empty, repeated id or not ordered by size", cs)
		}
		idSeen[x.ID] = true
		for _, id := range x.Nodes {
			if _, ok := m.nodes[id]; !ok || seen[id] {
				c.Failf("community", "node %s is unknown or in two communities: %+v", id, cs)
			}
			seen[id] = true
			if comp[id] != comp[x.Nodes[0]] {
				c.Failf("community", "community %v joins nodes without any connection", x.Nodes)
			}
		}
	}
	joined, linked, positive := false, false, true
	group := map[string]int{}
	for _, x := range cs {
		for _, id := range x.Nodes {
			group[id] = x.ID
		}
	}
	for _, x := range m.edges {
		positive = positive && x.w > 0
		if x.from != x.to {
			linked = true
			joined = joined || group[x.from] == group[x.to]
		}
	}
	if linked && positive && !joined {
		c.Failf("community", "no two linked nodes share a community: %+v", cs)
	}
	if len(seen) != len(m.nodes) {
		c.Failf("community", "communities cover %d of %d nodes", len(seen), len(m.nodes))
	}
	adj := map[string]map[string]bool{}
	for id := range m.nodes {
		adj[id] = map[string]bool{}
	}
	for _, x := range m.edges {
		adj[x.from][x.to], adj[x.to][x.from] = true, true
	}
	for id := range m.nodes {
		for _, k := range []int{0, 1, 2} {
			l, err := g.PredictEdges(bg, id, k)
			if err != nil {
				c.Failf("predict", "%v", err)
			}
			want := map[string]float64{}
			var ord []float64
			for o := range m.nodes {
				if o == id || adj[id][o] {
					continue
				}
				s := refCos(m.nodes[id].vec, m.nodes[o].vec)
				cn := 0
				for nb := range adj[id] {
					if adj[o][nb] {
						cn++
					}
				}
				if cn > 0 {
					s = (s + float64(cn)/float64(len(adj[id])+1)) / 2
				}
				if math.Abs(s-0.5) < 1e-6 {
					return // on the cut-off: either answer is right
				}
				if s > 0.5 {
					want[o] = s
					ord = append(ord, s)
				}
			}
			sort.Sort(sort.Reverse(sort.Float64Slice(ord)))
			lim := k
			if lim <= 0 {
				lim = 10 // the default
			}
			if len(ord) > lim {
				ord = ord[:lim]
			}
			if len(l) != len(ord) {
				c.Failf("predict", "PredictEdges(%s,%d) = %+v, want %v", id, k, l, want)
			}
			dup := map[string]bool{}
			for i, p := range l {
				s, ok := want[p.ToNodeID]
				if !ok || dup[p.ToNodeID] || p.FromNodeID != id || !near(p.Score, s) || !near(p.Score, ord[i]) {
					c.Failf("predict", "PredictEdges(%s,%d) = %+v, want %v", id, k, l, want)
				}
				dup[p.ToNodeID] = true
			}
		}
	}
	if _, err := g.PredictEdges(bg, "zz", 3); err == nil {
		c.Failf("predict", "PredictEdges of an unknown node succeeds")
	}
}

// smallGraph builds the graph with the given edge slots.
func smallGraph(e *genv, n int, slots [][2]int, mask int, mult bool) {
	names := []string{"a", "A", "c", "C", "d"}
	vs := [][]float32{sv["p"], sv["q"], {0.9, 0.1}, sv["r"], {0.3, 0.4}}
	var nl []*graph.GraphNode
	for i := 0; i < n; i++ {
		x := gnode{id: names[i], typ: []string{"T", "t"}[i%2], content: "c" + names[i], vec: vs[i]}
		e.m.putNode(x)
		nl = append(nl, toNode(x))
	}
	if _, err := e.g.UpsertNodesBatch(bg, nl); err != nil {
		e.c.Failf("setup", "%v", err)
	}
	ws := []float64{0.5, 2, -1, 0.25, 3}
	var el []*graph.GraphEdge
	for i, s := range slots {
		if mask&(1<<i) == 0 {
			continue
		}
		x := gedge{id: fmt.Sprintf("e%d", i), from: names[s[0]], to: names[s[1]], typ: []string{"K", "k"}[(s[0]+s[1]+i)%2], w: ws[i%len(ws)]}
		e.m.putEdge(x)
		el = append(el, toEdge(x))
		if mult {
			x.id += "m"
			x.typ = "k"
			x.w = 7
			e.m.putEdge(x)
			el = append(el, toEdge(x))
		}
	}
	if _, err := e.g.UpsertEdgesBatch(bg, el); err != nil {
		e.c.Failf("setup", "%v", err)
	}
	e.c.State(e.m.String())
}

func slotsOf(n int, loops bool) [][2]int {
	var l [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j || loops {
				l = append(l, [2]int{i, j})
			}
		}
	}
	return l
}

func bits(x int) int {
	n := 0
	for ; x > 0; x &= x - 1 {
		n++
	}
	return n
}

// reach checks distances between all pairs at greater depths.
func (e *genv) reach(depths []int) {
	c, m, g := e.c, e.m, e.g
	for a := range m.nodes {
		for _, dir := range []string{"out", "in", "both"} {
			d := m.dists(a, dir, nil)
			for _, depth := range depths {
				if depth == 0 {
					continue
				}
				l, err := g.Neighbors(bg, a, graph.TraversalOptions{MaxDepth: depth, Direction: dir})
				if err != nil {
					c.Failf("neighbors", "Neighbors: %v", err)
				}
				n, last := 0, 0
				for _, k := range d {
					if k > 0 && k <= depth {
						n++
					}
				}
				seen := map[string]bool{}
				for _, x := range l {
					k, ok := d[x.ID]
					if !ok || k == 0 || k > depth || k < last || seen[x.ID] {
						c.Failf("neighbors", "Neighbors(%s, %s, depth %d) of %s returns %s at distance %d after distance %d (again: %v)", a, dir, depth, m, x.ID, k, last, seen[x.ID])
					}
					last, seen[x.ID] = k, true
				}
				if len(l) != n {
					c.Failf("neighbors", "Neighbors(%s, %s, depth %d) of %s returns %d nodes, want %d", a, dir, depth, m, len(l), n)
				}
				c.Count("queries", 1)
			}
		}
		out, both := m.dists(a, "out", nil), m.dists(a, "both", nil)
		for b := range m.nodes {
			if a == b {
				continue
			}
			e.path1(a, b, out)
			for _, depth := range depths {
				max := depth
				if max == 0 {
					max = 6
				}
				k, ok := both[b]
				got, err := g.Connected(bg, a, b, depth)
				if err != nil || got != (ok && k <= max) {
					c.Failf("connected", "Connected(%s,%s,%d) of %s = %v %v, distance %d %v", a, b, depth, m, got, err, k, ok)
				}
			}
		}
	}
}

// longGraphs: graphs on five nodes where a detour and a short cut lead to a
// node with a tail, and longer shapes.
func longGraphs(w *vk.W) {
	var s5 [][2]int
	for i := 0; i < 5; i++ {
		for j := i + 1; j < 5; j++ {
			s5 = append(s5, [2]int{i, j})
		}
	}
	for mask := 0; mask < 1<<len(s5); mask++ {
		mask := mask
		if b := bits(mask); b < 4 || b > w.Pick(5, 8) {
			continue
		}
		w.Case(fmt.Sprintf("g5|%x", mask), func(c *vk.C) {
			e := newGEnv(c)
			smallGraph(e, 5, s5, mask, false)
			e.reach([]int{2, 3, 4})
			c.Trans(1)
		})
	}
	shapes := map[string]func(n int) [][2]int{
		"path": func(n int) (l [][2]int) {
			for i := 0; i+1 < n; i++ {
				l = append(l, [2]int{i, i + 1})
			}
			return
		},
		"zigzag": func(n int) (l [][2]int) {
			for i := 0; i+1 < n; i++ {
				l = append(l, [2]int{i + i%2, i + 1 - i%2})
			}
			return
		},
		"ring": func(n int) (l [][2]int) {
			for i := 0; i < n; i++ {
				l = append(l, [2]int{i, (i + 1) % n})
			}
			return
		},
		"star": func(n int) (l [][2]int) {
			for i := 1; i < n; i++ {
				l = append(l, [2]int{i * (i % 2), i * (1 - i%2)})
			}
			return
		},
		"cliques": func(n int) (l [][2]int) {
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					if (i < n/2) == (j < n/2) || i == n-1 && j == 0 {
						l = append(l, [2]int{i, j})
					}
				}
			}
			return
		},
		"ladder": func(n int) (l [][2]int) {
			for i := 0; i+2 < n; i++ {
				l = append(l, [2]int{i, i + 2})
				if i%2 == 0 {
					l = append(l, [2]int{i + 1, i})
				}
			}
			return
		},
		"tree": func(n int) (l [][2]int) {
			for i := 1; i < n; i++ {
				l = append(l, [2]int{(i - 1) / 2, i})
			}
			return
		},
	}
	for name, f := range shapes {
		for _, n := range []int{8, 9, 13} {
			name, f, n := name, f, n
			w.Case(fmt.Sprintf("shape|%s|%d", name, n), func(c *vk.C) {
				e := newGEnv(c)
				for i := 0; i < n; i++ {
					gopNode(gnode{id: fmt.Sprint("n", i), typ: "T", vec: []float32{1, float32(i)}}).do(e)
				}
				for i, x := range f(n) {
					gopEdge(gedge{id: fmt.Sprint("e", i), from: fmt.Sprint("n", x[0]), to: fmt.Sprint("n", x[1]), typ: "K", w: 1}).do(e)
				}
				e.reach([]int{0, 1, 3, 5, 6, 7, 12})
				e.analytics()
				c.Trans(1)
			})
		}
	}
}

// smallGraphs enumerates digraphs: all on up to 3 nodes with loops, on 4 nodes
// without loops those with at most the given number of edges, and multigraphs.
func smallGraphs(w *vk.W, max4 int, f func(e *genv)) {
	for n := 0; n <= 3; n++ {
		sl := slotsOf(n, true)
		for mask := 0; mask < 1<<len(sl); mask++ {
			n, mask := n, mask
			w.Case(fmt.Sprintf("g%d|%x", n, mask), func(c *vk.C) {
				e := newGEnv(c)
				smallGraph(e, n, sl, mask, false)
				f(e)
				c.Trans(1)
			})
		}
	}
	s4 := slotsOf(4, false)
	for mask := 0; mask < 1<<len(s4); mask++ {
		mask := mask
		if bits(mask) > max4 {
			continue
		}
		w.Case(fmt.Sprintf("g4|%x", mask), func(c *vk.C) {
			e := newGEnv(c)
			smallGraph(e, 4, s4, mask, false)
			f(e)
			c.Trans(1)
		})
	}
	s3 := slotsOf(3, false)
	for mask := 0; mask < 1<<len(s3); mask++ {
		mask := mask
		w.Case(fmt.Sprintf("multi|%x", mask), func(c *vk.C) {
			e := newGEnv(c)
			smallGraph(e, 3, s3, mask, true)
			f(e)
			c.Trans(1)
		})
	}
}

// ---------------------------------------------------------------- searches

type ghit struct {
	id      string
	v, g, c float64
	dist    int
}

func (e *genv) hybrids(maxNodes int) {
	m, g, c := e.m, e.g, e.c
	qs := [][]float32{nil, {0.7, 0.2}, {-1, 0.4}}
	for _, start := range []string{"", "a", "A", "zz"} {
		for qi, q := range qs {
			for fi, f := range []*graph.GraphFilter{nil, {NodeTypes: []string{"T"}}, {EdgeTypes: []string{"K"}}, {MaxDepth: 1}, {NodeTypes: []string{"t"}, MaxDepth: 2}, {MaxDepth: 4}} {
				for wi, wt := range []graph.HybridWeights{{}, {VectorWeight: 1, GraphWeight: 1, EdgeWeight: 2}, {VectorWeight: 0.7, GraphWeight: 0.3}, {VectorWeight: 0.2, GraphWeight: 0.3}, {EdgeWeight: 0.5}} {
					for _, top := range []int{0, 1, 2, 20} {
						for _, thr := range []float64{0, 0.5} {
							if thr > 0 && (wi > 0 || q == nil) {
								continue
							}
							qq := &graph.HybridQuery{Vector: q, StartNodeID: start, GraphFilter: f, TopK: top, Threshold: thr, Weights: wt}
							r, err := g.HybridSearch(bg, qq)
							what := fmt.Sprintf("HybridSearch(start=%q vec=%d filter=%d weights=%d top=%d thr=%v)", start, qi, fi, wi, top, thr)
							if err != nil {
								c.Failf("hybrid", "%s: %v", what, err)
							}
							e.checkHybrid(what, r, q, start, f, wt, top, thr)
							c.Count("queries", 1)
						}
					}
				}
			}
		}
	}
	if _, err := g.HybridSearch(bg, nil); err == nil {
		c.Failf("hybrid", "a nil query is accepted")
	}
	// a threshold that is a node's own score lets the node in
	exact := func(what string, f func(thr float64) ([]*graph.HybridResult, error), score func(h *graph.HybridResult) float64) {
		all, err := f(0)
		if err != nil {
			c.Failf("exact", "%s: %v", what, err)
			return
		}
		for _, h := range all {
			thr := score(h)
			if thr == 0 {
				continue
			}
			want := 0
			for _, o := range all {
				if score(o) >= thr {
					want++
				}
			}
			r, err := f(thr)
			if err != nil || len(r) != want {
				c.Failf("exact", "%s with threshold %v, the score of %s, returns %d results (%v), %d score as much", what, thr, h.Node.ID, len(r), err, want)
			}
		}
	}
	for _, q := range qs[1:] {
		exact(fmt.Sprintf("HybridSearch(%v)", q), func(thr float64) ([]*graph.HybridResult, error) {
			return g.HybridSearch(bg, &graph.HybridQuery{Vector: q, Threshold: thr})
		}, func(h *graph.HybridResult) float64 { return h.VectorScore })
	}
	for id := range m.nodes {
		exact("SimilarityInGraph("+id+")", func(thr float64) ([]*graph.HybridResult, error) {
			return g.SimilarityInGraph(bg, id, core.SearchOptions{Threshold: thr})
		}, func(h *graph.HybridResult) float64 { return h.VectorScore })
	}
	for id := range m.nodes {
		for _, top := range []int{0, 1, 2} {
			for _, thr := range []float64{0, 0.5} {
				r, err := g.SimilarityInGraph(bg, id, core.SearchOptions{TopK: top, Threshold: thr})
				if err != nil {
					c.Failf("similar", "SimilarityInGraph(%s): %v", id, err)
				}
				want := map[string]float64{}
				for o, n := range m.nodes {
					if s := e.sim(m.nodes[id].vec, n.vec); o != id && (thr == 0 || s >= thr) {
						want[o] = s
					}
				}
				e.ranked(fmt.Sprintf("SimilarityInGraph(%s,top=%d,thr=%v)", id, top, thr), r, want, top, func(h *graph.HybridResult) float64 { return h.VectorScore })
			}
		}
		for _, depth := range []int{1, 2} {
			for _, dir := range []string{"out", "both"} {
				for _, lim := range []int{0, 1, 2} {
					q := []float32{0.7, 0.2}
					r, err := g.GraphVectorSearch(bg, id, q, graph.TraversalOptions{MaxDepth: depth, Direction: dir, Limit: lim})
					if err != nil {
						c.Failf("gvs", "GraphVectorSearch: %v", err)
					}
					want := map[string]float64{}
					for o, k := range m.dists(id, dir, nil) {
						if k <= depth {
							want[o] = e.sim(q, m.nodes[o].vec)
						}
					}
					e.ranked(fmt.Sprintf("GraphVectorSearch(%s,depth=%d,%s,limit=%d)", id, depth, dir, lim), r, want, lim, func(h *graph.HybridResult) float64 { return h.VectorScore })
				}
			}
		}
	}
}

// ranked checks a result list against the full set of scores.
func (e *genv) ranked(what string, r []*graph.HybridResult, want map[string]float64, top int, score func(h *graph.HybridResult) float64) {
	var ord []float64
	for _, s := range want {
		ord = append(ord, s)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(ord)))
	if top > 0 && len(ord) > top {
		ord = ord[:top]
	}
	desc := func() string {
		var l []string
		for _, h := range r {
			l = append(l, fmt.Sprintf("%s:%.4f", h.Node.ID, score(h)))
		}
		return strings.Join(l, " ")
	}
	if len(r) != len(ord) {
		e.c.Failf("count", "%s = %s, want the best %d of %v", what, desc(), len(ord), want)
	}
	seen := map[string]bool{}
	for i, h := range r {
		w, ok := want[h.Node.ID]
		if !ok || seen[h.Node.ID] || !near(score(h), w) {
			e.c.Failf("score", "%s = %s, want %v", what, desc(), want)
		}
		if !near(score(h), ord[i]) {
			e.c.Failf("order", "%s = %s, want scores %v", what, desc(), ord)
		}
		if fromNode(h.Node).String() != e.m.nodes[h.Node.ID].String() {
			e.c.Failf("node", "%s returns node %s", what, fromNode(h.Node))
		}
		seen[h.Node.ID] = true
	}
}

func (e *genv) checkHybrid(what string, r []*graph.HybridResult, q []float32, start string, f *graph.GraphFilter, wt graph.HybridWeights, top int, thr float64) {
	m, c := e.m, e.c
	sum := wt.VectorWeight + wt.GraphWeight + wt.EdgeWeight
	if sum == 0 {
		wt = graph.HybridWeights{VectorWeight: 0.5, GraphWeight: 0.3, EdgeWeight: 0.2}
		sum = 1
	}
	vw, gw, ew := wt.VectorWeight/sum, wt.GraphWeight/sum, wt.EdgeWeight/sum
	var nt, et []string
	maxd := 3
	if f != nil {
		nt, et = f.NodeTypes, f.EdgeTypes
		if f.MaxDepth > 0 {
			maxd = f.MaxDepth
		}
	}
	d := map[string]int{}
	prod := map[string][]float64{}
	if start != "" {
		d = m.dists(start, "out", et)
		prod = m.products(start, et)
	}
	want := map[string][]float64{} // possible combined scores
	dist := map[string]int{}
	vs := map[string]float64{}
	for id, n := range m.nodes {
		if len(nt) > 0 && !has(nt, n.typ) {
			continue
		}
		k, inG := d[id]
		inG = inG && k <= maxd
		v := 0.0
		if len(q) > 0 {
			v = e.sim(q, n.vec)
		}
		inV := len(q) > 0 && (thr == 0 || v >= thr)
		if !inG && !inV {
			continue
		}
		vs[id] = v
		if !inG {
			want[id] = []float64{v * vw}
			dist[id] = -1
			continue
		}
		dist[id] = k
		for _, p := range prod[id] {
			want[id] = append(want[id], v*vw+gw/float64(k+1)+p*ew)
		}
	}
	n := len(want)
	if top > 0 && n > top {
		n = top
	}
	if len(r) != n {
		c.Failf("hybrid", "%s returns %d results, want %d of %v", what, len(r), n, want)
	}
	seen := map[string]bool{}
	last := math.Inf(1)
	for i, h := range r {
		id := h.Node.ID
		ok := false
		for _, w := range want[id] {
			ok = ok || near(h.CombinedScore, w)
		}
		if !ok || seen[id] || h.Distance != dist[id] || !near(h.VectorScore, vs[id]) {
			c.Failf("hybrid", "%s: result %d is %s combined %v vector %v distance %d; want combined in %v vector %v distance %d", what, i, id, h.CombinedScore, h.VectorScore, h.Distance, want[id], vs[id], dist[id])
		}
		if h.CombinedScore > last+1e-9 {
			c.Failf("hybrid", "%s is not sorted", what)
		}
		last = h.CombinedScore
		seen[id] = true
	}
	// nothing left out beats what was returned
	for id, l := range want {
		if seen[id] {
			continue
		}
		least := math.Inf(1)
		for _, x := range l {
			least = math.Min(least, x)
		}
		if least > last+1e-6 {
			c.Failf("hybrid", "%s leaves out %s with score %v, the last result has %v", what, id, least, last)
		}
	}
}

// indexSearch compares the index with a full scan.
func (e *genv) indexSearch() {
	c, m, g := e.c, e.m, e.g
	for _, q := range queries {
		for _, k := range []int{1, 2, 5} {
			for _, thr := range []float64{-2, 0.3} {
				r, err := g.HNSWSearch(bg, q, k, thr)
				if err != nil {
					c.Failf("hnsw", "HNSWSearch: %v", err)
				}
				want := map[string]float64{}
				for id, n := range m.nodes {
					if s := e.sim(q, n.vec); s >= thr {
						want[id] = s
					}
				}
				e.ranked(fmt.Sprintf("HNSWSearch(%v,k=%d,thr=%v)", q, k, thr), r, want, k, func(h *graph.HybridResult) float64 { return h.TotalScore })
				c.Count("queries", 1)
				if k == 5 {
					for _, h := range r {
						r2, err := g.HNSWSearch(bg, q, k, h.TotalScore)
						want := 0
						for _, o := range r {
							if o.TotalScore >= h.TotalScore {
								want++
							}
						}
						if err != nil || len(r2) != want {
							c.Failf("exact", "HNSWSearch(%v,k=%d) with threshold %v, the score of %s, returns %d results (%v), %d score as much", q, k, h.TotalScore, h.Node.ID, len(r2), err, want)
						}
					}
				}
			}
		}
		for _, centers := range [][]string{nil, {"a"}, {"a", "A"}} {
			hq := &graph.HybridQuery{Vector: q, TopK: 3, CenterNodes: centers, VectorWeight: 0.6, GraphWeight: 0.4, VectorThreshold: -2, TotalThreshold: -2}
			r, err := g.HNSWHybridSearch(bg, hq)
			if err != nil {
				c.Failf("hnsw", "HNSWHybridSearch: %v", err)
			}
			want := map[string]float64{}
			for id, n := range m.nodes {
				gs := 0.0
				for _, ce := range centers {
					if _, ok := m.nodes[ce]; !ok {
						continue
					}
					if k, ok := m.dists(ce, "out", nil)[id]; ok {
						gs = math.Max(gs, 1/float64(k+1))
					}
				}
				want[id] = 0.6*e.sim(q, n.vec) + 0.4*gs
			}
			e.ranked(fmt.Sprintf("HNSWHybridSearch(%v,centers=%v)", q, centers), r, want, 3, func(h *graph.HybridResult) float64 { return h.TotalScore })
		}
	}
	// the combined search gives the same with the index
	for _, start := range []string{"", "a"} {
		for _, f := range []*graph.GraphFilter{nil, {NodeTypes: []string{"T"}}} {
			q := []float32{0.7, 0.2}
			r, err := g.HybridSearch(bg, &graph.HybridQuery{Vector: q, StartNodeID: start, GraphFilter: f, TopK: 2})
			if err != nil {
				c.Failf("hybrid", "%v", err)
			}
			e.checkHybrid(fmt.Sprintf("HybridSearch(start=%q filter=%v) with index", start, f), r, q, start, f, graph.HybridWeights{}, 2, 0)
		}
	}
	c.State(m.String())
}

// gcoins scripts the level draws of the graph index: pattern bit i decides how
// high the i-th insertion goes.
func gcoins(pattern int) func() {
	var l []bool
	for i := 0; i < 60; i++ {
		if pattern&(1<<(i%4)) != 0 {
			l = append(l, true)
			if i%3 == 1 {
				l = append(l, true)
			}
		}
		l = append(l, false)
	}
	vrand.SetCoins(l)
	return vrand.Off
}

func init() {
	vk.Register(&vk.Check{ID: "C20", Rule: "every directed graph on up to 3 nodes with loops, every one on 4 nodes with at most 4/12 edges, multigraphs, 5-node graphs with 4-5/8 edges and longer shapes (paths, rings, stars, trees, cliques): neighbours for all starts, directions, depths, type filters and limits, shortest paths and connectivity for all pairs, all induced subgraphs, statistics, PageRank equation, communities, edge prediction, against a reference",
		Run: func(w *vk.W) {
			graphReadFaults(w, "Neighbors", "ShortestPath", "Connected", "Subgraph", "PageRank", "Community", "Predict", "Statistics")
			smallGraphs(w, w.Pick(3, 12), func(e *genv) {
				e.traversals()
				e.analytics()
			})
			longGraphs(w)
		}})
	vk.Register(&vk.Check{ID: "C22", Rule: "hybrid, neighbourhood and similarity search over every small graph against a reference ranking; with the HNSW index every sequence of up to 3 graph operations under every pattern of level draws, plus larger sets with deletions, against a full scan",
		Run: func(w *vk.W) {
			graphReadFaults(w, "Search", "Similarity", "HNSW")
			smallGraphs(w, w.Pick(2, 6), func(e *genv) { e.hybrids(4) })
			for i, slots := range [][][2]int{{{0, 1}, {1, 2}, {2, 3}, {3, 4}}, {{0, 2}, {2, 1}, {1, 4}, {4, 3}, {3, 0}}, {{1, 0}, {0, 3}, {3, 2}, {2, 4}, {1, 3}}} {
				slots := slots
				w.Case(fmt.Sprintf("long|%d", i), func(c *vk.C) {
					e := newGEnv(c)
					smallGraph(e, 5, slots, 1<<len(slots)-1, false)
					e.hybrids(5)
				})
			}
			all := graphOps()
			ops := []gop{all[0], all[1], all[2], all[3], all[10], all[11], all[13], all[15], all[16], all[18], all[20], all[5]}
			for pat := 0; pat < 16; pat += w.Pick(5, 1) {
				pat := pat
				prep := func(full bool) func(e *genv) {
					return func(e *genv) {
						e.c.Defer(gcoins(pat))
						if full {
							for _, i := range []int{0, 2, 3, 5} {
								all[i].do(e)
							}
							gopNode(gnode{id: "a_expanded", vec: []float32{0.6, 0.3}, content: "z"}).do(e)
						}
						e.hnsw = true
						if err := e.g.EnableHNSWIndex(2); err != nil {
							e.c.Failf("enable", "%v", err)
						}
					}
				}
				for k := 1; k <= 3; k++ {
					gseqs(w, fmt.Sprintf("ix%d-empty", pat), ops, k, prep(false), func(e *genv) { e.indexSearch() })
					if k < w.Pick(3, 4) {
						gseqs(w, fmt.Sprintf("ix%d-full", pat), ops, k, prep(true), func(e *genv) { e.indexSearch() })
					}
				}
			}
			// concurrent writers: index and rows agree when all have returned
			co := []gop{all[0], all[1], all[10], all[11], all[13], all[15], all[18]}
			for i := range co {
				for j := i; j < len(co); j++ {
					i, j := i, j
					w.Case(fmt.Sprintf("conc|%d|%d", i, j), func(c *vk.C) { graphConc(c, []gop{co[i], co[j]}, w.Pick(2, 4)) })
				}
			}
			for _, t := range [][]int{{0, 1, 5}, {2, 5, 4}, {1, 6, 3}} {
				t := t
				w.Case(fmt.Sprintf("conc3|%v", t), func(c *vk.C) { graphConc(c, []gop{co[t[0]], co[t[1]], co[t[2]]}, w.Pick(1, 2)) })
			}
			graphLarge(w)
			// more nodes than one node keeps links to, then deletions
			for _, n := range []int{20, 40} {
				for pat := 0; pat < 16; pat += w.Pick(5, 1) {
					for _, del := range []string{"none", "first", "odd", "block"} {
						n, pat, del := n, pat, del
						w.Case(fmt.Sprintf("big|%d|%d|%s", n, pat, del), func(c *vk.C) {
							e := newGEnv(c)
							c.Defer(gcoins(pat))
							e.hnsw = true
							if err := e.g.EnableHNSWIndex(2); err != nil {
								c.Failf("enable", "%v", err)
							}
							for i := 0; i < n; i++ {
								a := float64(i*7%n) / float64(n) * 6
								gopNode(gnode{id: fmt.Sprintf("n%02d", i), vec: []float32{float32(math.Cos(a)), float32(math.Sin(a))}}).do(e)
							}
							for i := 0; i < n; i++ {
								if del == "first" && i < 3 || del == "odd" && i%2 == 1 || del == "block" && i >= n/4 && i < n/2 {
									gopDelNode(fmt.Sprintf("n%02d", i)).do(e)
								}
							}
							for i := 0; i < 12; i++ {
								a := float64(i) / 2
								q := []float32{float32(math.Cos(a)), float32(math.Sin(a))}
								for _, k := range []int{1, 5, 25} {
									want := map[string]float64{}
									for id, x := range e.m.nodes {
										want[id] = refCos(q, x.vec)
									}
									r, err := e.g.HNSWSearch(bg, q, k, -2)
									if err != nil {
										c.Failf("hnsw", "%v", err)
									}
									e.ranked(fmt.Sprintf("HNSWSearch(%d nodes, k=%d)", len(want), k), r, want, k, func(h *graph.HybridResult) float64 { return h.TotalScore })
								}
							}
						})
					}
				}
			}
		}})
}

// graphConc runs graph writers concurrently on an indexed graph.
func graphConc(c *vk.C, ops []gop, bound int) {
	c.Defer(gcoins(0))
	var e *genv
	names := []string{}
	for _, o := range ops {
		names = append(names, o.name)
	}
	mk := func() []func() {
		gcoins(5)
		e = newGEnv(c)
		all := graphOps()
		for _, i := range []int{0, 2, 3, 5} {
			all[i].do(e)
		}
		e.hnsw = true
		if err := e.g.EnableHNSWIndex(2); err != nil {
			c.Fatal("%v", err)
		}
		var bodies []func()
		for _, o := range ops {
			o := o
			bodies = append(bodies, func() {
				// outcomes are left to the sequential checks: a delete may come
				// first or second
				d := &genv{c: e.c, s: e.s, g: e.g, m: newGModel(), path: e.path}
				d.loose = true
				o.do(d)
			})
		}
		return bodies
	}
	after := func(s *vsync.Sched, sched []int) bool {
		if s.Deadlock || s.Stuck || s.TooLong {
			c.Failf("deadlock", "deadlock with schedule %v: %v", sched, s.Blocked)
		}
		if len(s.Panics) > 0 {
			c.Failf("panic", "panic with schedule %v: %s", sched, s.Panics[0])
		}
		l, err := e.g.GetAllNodes(bg, nil)
		if err != nil {
			c.Failf("read", "%v", err)
		}
		e.m = newGModel()
		for _, n := range l {
			e.m.nodes[n.ID] = fromNode(n)
			ed, err := e.g.GetEdges(bg, n.ID, "out")
			if err != nil {
				c.Failf("read", "%v", err)
			}
			for _, x := range ed {
				e.m.edges[x.ID] = fromEdge(x)
			}
		}
		for _, x := range e.m.edges {
			if _, ok := e.m.nodes[x.to]; !ok {
				c.Failf("dangling", "edge %s points to a deleted node (schedule %v)", x, sched)
			}
		}
		c.Logf("schedule %v", sched)
		e.indexSearch()
		e.s.Close()
		return true
	}
	st := vsync.Explore(bound, false, 4000, names, mk, after, func() bool { return !c.W.Stop() })
	c.Count("schedules", st.Schedules)
	c.Trans(st.Steps)
	if !st.Complete {
		c.W.Cut()
	}
}

// graphLarge: hybrid search with the index over more nodes than it considers
// at once, per metric, with rare node types.
func graphLarge(w *vk.W) {
	for _, mt := range metrics30 {
		for _, n := range []int{12, 30, 60, 90} {
			for pat := 0; pat < 16; pat += w.Pick(5, 1) {
				mt, n, pat := mt, n, pat
				w.Case(fmt.Sprintf("large|%s|%d|%d", mt.name, n, pat), func(c *vk.C) {
					e := newGEnvM(c, mt.f, mt.sim)
					c.Defer(gcoins(pat))
					e.hnsw = true
					if err := e.g.EnableHNSWIndex(2); err != nil {
						c.Failf("enable", "%v", err)
					}
					for i := 0; i < n; i++ {
						a := float64(i*7%n) / float64(n) * 6
						r := 0.3 + float64(i*5%11)/4
						x := gnode{id: fmt.Sprintf("n%02d", i), typ: "T", vec: []float32{float32(r * math.Cos(a)), float32(r * math.Sin(a))}}
						if i%6 == 1 {
							x.typ = "t"
						}
						gopNode(x).do(e)
						if i%10 == 5 {
							gopEdge(gedge{id: fmt.Sprintf("e%d", i), from: "n00", to: x.id, typ: "K", w: 0.5}).do(e)
						}
					}
					c.State(e.m.String())
					for i := 0; i < 6; i++ {
						a := float64(i) + 0.1
						q := []float32{float32(math.Cos(a)), float32(math.Sin(a))}
						for _, k := range []int{1, 2, 5, 10, 20} {
							want := map[string]float64{}
							for id, x := range e.m.nodes {
								want[id] = e.sim(q, x.vec)
							}
							r, err := e.g.HNSWSearch(bg, q, k, -100)
							if err != nil {
								c.Failf("hnsw", "%v", err)
							}
							e.ranked(fmt.Sprintf("HNSWSearch(%v of %d nodes, k=%d)", q, n, k), r, want, k, func(h *graph.HybridResult) float64 { return h.TotalScore })
							for fi, f := range []*graph.GraphFilter{nil, {NodeTypes: []string{"t"}}, {NodeTypes: []string{"T"}}, {NodeTypes: []string{"none"}}} {
								for _, start := range []string{"", "n00"} {
									for _, wt := range []graph.HybridWeights{{}, {VectorWeight: 1, GraphWeight: 1}, {VectorWeight: 0.2, EdgeWeight: 0.3}} {
										c.Trans(1)
										what := fmt.Sprintf("HybridSearch(%d nodes, %v start=%q filter=%d weights=%v top=%d)", n, q, start, fi, wt, k)
										r, err := e.g.HybridSearch(bg, &graph.HybridQuery{Vector: q, StartNodeID: start, GraphFilter: f, TopK: k, Weights: wt})
										if err != nil {
											c.Failf("hybrid", "%s: %v", what, err)
										}
										e.checkHybrid(what, r, q, start, f, wt, k, 0)
									}
								}
							}
						}
					}
				})
			}
		}
	}
}
