package checks

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// C29: aggregations and facets.

type aggCase struct {
	req core.AggregationRequest
}

func (a aggCase) String() string { return fmt.Sprintf("%+v", a.req) }

type refGroup struct {
	keys  []string // "" for missing, "=v" for a value
	rows  []row
	value interface{}
}

// keyOf is the value as the result reports it.
func aggKey(k string) interface{} {
	if k == "" {
		return nil
	}
	if f, err := strconv.ParseFloat(k[1:], 64); err == nil {
		return f
	}
	return k[1:]
}

func refFiltered(m *model, coll string, filters map[string]interface{}) []row {
	var out []row
	for _, id := range m.ids() {
		r := m.rows[id]
		if coll != "" && collOf(r) != coll {
			continue
		}
		ok := true
		for f, v := range filters {
			x, has := r.meta[f]
			ok = ok && has && x == refText(v)
		}
		if ok {
			out = append(out, r)
		}
	}
	return out
}

func collOf(r row) string {
	if r.coll == "" {
		return "default"
	}
	return r.coll
}

func refAgg(t core.AggregationType, field string, rows []row) (interface{}, int) {
	var l []float64
	for _, r := range rows {
		if v, ok := r.meta[field]; ok {
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				panic("non-numeric " + v)
			}
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		return nil, 0
	}
	x := l[0]
	for _, v := range l[1:] {
		switch t {
		case core.AggregationMin:
			x = math.Min(x, v)
		case core.AggregationMax:
			x = math.Max(x, v)
		default:
			x += v
		}
	}
	if t == core.AggregationAvg {
		x /= float64(len(l))
	}
	return x, len(l)
}

func aggSame(a, b interface{}) bool {
	f := func(v interface{}) (float64, bool) {
		switch t := v.(type) {
		case int:
			return float64(t), true
		case float64:
			return t, true
		}
		return 0, false
	}
	x, ok := f(a)
	y, ok2 := f(b)
	if ok && ok2 {
		return math.Abs(x-y) <= 1e-9*math.Max(1, math.Abs(x))
	}
	return a == b
}

// judgeAgg compares one aggregation with its definition.
func judgeAgg(e *env, req core.AggregationRequest) {
	c := e.c
	c.Trans(1)
	resp, err := e.s.Aggregate(bg, req)
	what := func() string { return fmt.Sprintf("Aggregate(%+v) of %s", req, e.m) }
	rows := refFiltered(e.m, req.Collection, req.Filters)
	needs := req.Type == core.AggregationSum || req.Type == core.AggregationAvg || req.Type == core.AggregationMin || req.Type == core.AggregationMax
	if needs && req.Field == "" || req.Type == core.AggregationGroupBy && len(req.GroupBy) == 0 {
		if err == nil {
			c.Failf("refuse", "%s is accepted", what())
		}
		return
	}
	if err != nil {
		c.Failf("error", "%s: %v", what(), err)
		return
	}
	if resp.Total != len(resp.Results) {
		c.Failf("total", "%s: total %d of %d results", what(), resp.Total, len(resp.Results))
		return
	}
	if len(req.GroupBy) == 0 {
		var want interface{} = len(rows)
		n := len(rows)
		if needs {
			want, n = refAgg(req.Type, req.Field, rows)
			if want == nil {
				want = 0.0
			}
		}
		if len(resp.Results) != 1 || !aggSame(resp.Results[0].Value, want) || resp.Results[0].Count != n {
			c.Failf("value:"+string(req.Type), "%s = %+v, want %v (count %d)", what(), resp.Results, want, n)
		}
		return
	}
	groups := map[string]*refGroup{}
	for _, r := range rows {
		var keys []string
		for _, f := range req.GroupBy {
			k := ""
			if v, ok := r.meta[f]; ok {
				k = "=" + v
			}
			keys = append(keys, k)
		}
		id := strings.Join(keys, "\x00")
		if groups[id] == nil {
			groups[id] = &refGroup{keys: keys}
		}
		groups[id].rows = append(groups[id].rows, r)
	}
	var all []*refGroup
	for id, g := range groups {
		g.value = len(g.rows)
		if needs {
			g.value, _ = refAgg(req.Type, req.Field, g.rows)
		}
		keep := true
		for f, v := range req.Having {
			switch f {
			case "count":
				keep = keep && len(g.rows) == v.(int)
			case "value", "agg_value":
				keep = keep && g.value != nil && aggSame(g.value, v)
			default:
				for i, b := range req.GroupBy {
					if b == f {
						keep = keep && g.keys[i] == "="+refText(v)
					}
				}
			}
		}
		if keep {
			all = append(all, groups[id])
		}
	}
	// sort key of a group, larger first
	less := func(a, b *refGroup) int { // <0: a before b
		num := func(x, y float64) int {
			if x > y {
				return -1
			} else if x < y {
				return 1
			}
			return 0
		}
		switch req.OrderBy {
		case "", "count":
			return num(float64(len(a.rows)), float64(len(b.rows)))
		case "value", "agg_value":
			v := func(g *refGroup) float64 {
				switch t := g.value.(type) {
				case int:
					return float64(t)
				case float64:
					return t
				}
				return math.Inf(-1)
			}
			return num(v(a), v(b))
		}
		for i, b2 := range req.GroupBy {
			if b2 == req.OrderBy {
				return -strings.Compare(a.keys[i], b.keys[i])
			}
		}
		return 0
	}
	sort.Slice(all, func(i, j int) bool { return less(all[i], all[j]) < 0 })
	want := len(all)
	if req.Limit > 0 && want > req.Limit {
		want = req.Limit
	}
	if len(resp.Results) != want {
		c.Failf("groups", "%s has %d groups %+v, want %d", what(), len(resp.Results), resp.Results, want)
		return
	}
	used := map[*refGroup]bool{}
	for i, r := range resp.Results {
		var hit *refGroup
		for _, g := range all {
			ok := !used[g] && len(g.rows) == r.Count && aggSame(g.value, r.Value) && len(r.GroupKeys) == len(req.GroupBy)
			for k, f := range req.GroupBy {
				v, has := r.GroupKeys[f]
				ok = ok && has && aggSame(aggKey(g.keys[k]), v)
			}
			if ok && less(g, all[i]) == 0 {
				hit = g
				break
			}
		}
		if hit == nil {
			c.Failf("group", "%s has at rank %d the group %+v; it is wrong or out of order", what(), i, r)
			return
		}
		used[hit] = true
	}
}

var aggKinds = []row{
	{},
	{meta: map[string]string{"s": "x", "n": "1", "b": "true"}},
	{meta: map[string]string{"s": "x", "n": "1.5", "b": "false", "a.b": "3", "my-key": "k"}},
	{coll: "c_1", meta: map[string]string{"s": "x", "n": "10"}},
	{coll: "c_1", meta: map[string]string{"s": "y", "n": "-2", "order": "o", "it's": "v"}},
	{meta: map[string]string{"s": "y", "a": "z", "count": "7", "a.b": "4"}},
	{coll: "c_1"},
	{meta: map[string]string{"n": "1", "order": "p", "b": "true"}},
}

func aggGrid(thorough bool) []core.AggregationRequest {
	var out []core.AggregationRequest
	types := []core.AggregationType{core.AggregationCount, core.AggregationSum, core.AggregationAvg, core.AggregationMin, core.AggregationMax, core.AggregationGroupBy}
	groups := [][]string{nil, {"s"}, {"s", "n"}, {"a.b"}, {"order"}, {"my-key", "b"}, {"it's"}, {"n"}, {"missing"}}
	filters := []map[string]interface{}{nil, {"s": "x"}, {"n": 1}, {"n": 1.5}, {"b": true}, {"s": "x", "n": "1"}, {"it's": "v"}, {"a.b": 3}, {"missing": "x"}, {"a": "z"}, {"s": ""}}
	for _, t := range types {
		for _, g := range groups {
			for fi, f := range []string{"n", "a.b", "missing", ""} {
				if (t == core.AggregationCount || t == core.AggregationGroupBy) && fi > 0 && f != "" {
					continue
				}
				for xi, x := range filters {
					for ci, col := range []string{"", "c_1", "default", "nope"} {
						if !thorough && (fi > 0 && (xi+ci)%3 != 0 || xi > 0 && ci > 1) {
							continue
						}
						out = append(out, core.AggregationRequest{Type: t, Field: f, GroupBy: g, Filters: x, Collection: col})
					}
				}
			}
			if len(g) == 0 {
				continue
			}
			for _, h := range []map[string]interface{}{nil, {"count": 1}, {"count": 2}, {"value": 1}, {"agg_value": 2.5}, {g[0]: "x"}, {g[0]: 1, "count": 1}} {
				for _, o := range []string{"", "count", "value", "agg_value", g[0]} {
					if o == "n" || o == "a.b" {
						continue // text or number order is not specified
					}
					for _, l := range []int{0, 1, 2} {
						out = append(out, core.AggregationRequest{Type: t, Field: "n", GroupBy: g, Having: h, OrderBy: o, Limit: l})
					}
				}
			}
		}
	}
	return out
}

func aggData(w *vk.W) {
	grid := aggGrid(w.Thorough())
	n := 3
	total := 1
	for i := 0; i < n; i++ {
		total *= len(aggKinds) + 1
	}
	for k := 0; k < total; k++ {
		if w.Stop() {
			return
		}
		// rows are interchangeable: one order of kinds is enough
		var kinds []int
		ok := true
		for i, x := 0, k; i < n; i++ {
			kinds = append(kinds, x%(len(aggKinds)+1))
			x /= len(aggKinds) + 1
			ok = ok && (i == 0 || kinds[i] >= kinds[i-1])
		}
		if !ok {
			continue
		}
		w.Case(fmt.Sprintf("data|%v", kinds), func(c *vk.C) {
			e := newEnv(c, cfgT{"plain", 2, nil})
			opCreateColl("c_1", 2).do(e)
			for i, kd := range kinds {
				if kd == len(aggKinds) {
					continue
				}
				r := aggKinds[kd]
				r.id, r.vec = fmt.Sprintf("r%d", i), []float32{1, float32(i)}
				opUpsert("", r).do(e)
			}
			c.State(e.m.String())
			for _, q := range grid {
				judgeAgg(e, q)
			}
			for _, q := range []core.AggregationRequest{{}, {Type: "median", Field: "n"}, {Type: core.AggregationGroupBy, GroupBy: []string{"s"}, OrderBy: "nope"}, {Type: core.AggregationGroupBy, GroupBy: []string{"s"}, Having: map[string]interface{}{"nope": 1}}} {
				if _, err := e.s.Aggregate(bg, q); err == nil {
					c.Failf("refuse", "Aggregate(%+v) is accepted", q)
				}
			}
		})
	}
}

// aggMany: tables with more rows, groups and values than any page size.
func aggMany(w *vk.W) {
	for _, n := range []int{12, 60, 330} {
		n := n
		w.Case(fmt.Sprintf("many|%d", n), func(c *vk.C) {
			e := newEnv(c, cfgT{"plain", 2, nil})
			opCreateColl("c_1", 2).do(e)
			var l []row
			for i := 0; i < n; i++ {
				m := map[string]string{"s": fmt.Sprintf("v%d", i%(n/4)), "n": refText(float64(i*7%n) / 10), "g": refText(float64(i%(n/3)) + 0.1), "big": strconv.Itoa(16777217 + i%3)}
				if i%5 == 4 {
					delete(m, "s")
				}
				r := row{id: fmt.Sprintf("m%d", i), vec: []float32{1, float32(i) / float32(n)}, meta: m}
				if i%3 == 1 {
					r.coll = "c_1"
				}
				l = append(l, r)
			}
			opBatch("rows", l...).do(e)
			c.State(fmt.Sprint("many", n))
			for _, t := range []core.AggregationType{core.AggregationCount, core.AggregationSum, core.AggregationAvg, core.AggregationMin, core.AggregationMax, core.AggregationGroupBy} {
				for _, f := range []string{"n", "big"} {
					for _, g := range [][]string{nil, {"s"}, {"g"}, {"big"}, {"s", "g"}, {"g", "big"}} {
						if t == core.AggregationGroupBy && g == nil {
							continue
						}
						for _, col := range []string{"", "c_1"} {
							for _, lim := range []int{0, 1, 10, 11, 75} {
								if g == nil && lim > 0 {
									continue
								}
								judgeAgg(e, core.AggregationRequest{Type: t, Field: f, GroupBy: g, Collection: col, Limit: lim})
							}
							if g != nil {
								judgeAgg(e, core.AggregationRequest{Type: t, Field: f, GroupBy: g, Collection: col, OrderBy: "value", Limit: 12})
								judgeAgg(e, core.AggregationRequest{Type: t, Field: f, GroupBy: g, Collection: col, OrderBy: "value"})
							}
						}
					}
				}
			}
			for _, ff := range []map[string]core.FacetFilter{{"s": {Type: core.FilterTypeExists}}, {"n": {Type: core.FilterTypeExists}, "big": {Type: core.FilterTypeEquals, Values: vals("16777217")}}, {"g": {Type: core.FilterTypeExists}}} {
				for _, k := range []int{0, 1, 11, 100, 400} {
					for _, mx := range []int{0, 1, 11, 500} {
						judgeFacets(e, core.FacetedSearchOptions{SearchOptions: core.SearchOptions{TopK: k}, Facets: ff, ReturnFacets: true, MaxFacetValues: mx})
						judgeFacets(e, core.FacetedSearchOptions{SearchOptions: core.SearchOptions{TopK: k, Collection: "c_1"}, Facets: ff, ReturnFacets: true, MaxFacetValues: mx})
					}
				}
			}
		})
	}
}

func aggSeqs(w *vk.W) {
	rw := func(id string, kd int) row {
		r := aggKinds[kd]
		r.id, r.vec = id, []float32{1, 1}
		return r
	}
	ops := []op{
		opUpsert("", rw("a", 1)), opUpsert("", rw("a", 4)), opUpsert("", rw("b", 2)),
		opBatch("batch", rw("b", 3), rw("d", 5)), opDelete("a"), opDeleteBatch("a", "b"),
		opDropColl("c_1"), opCreateColl("c_1", 2),
		{"reopen", func(e *env) { e.reopen() }},
	}
	for i := range ops[:3] {
		ops[i].name = fmt.Sprintf("up%d", i)
	}
	var grid []core.AggregationRequest
	for _, t := range []core.AggregationType{core.AggregationCount, core.AggregationSum, core.AggregationMax} {
		for _, g := range [][]string{nil, {"s"}} {
			for _, col := range []string{"", "c_1"} {
				grid = append(grid, core.AggregationRequest{Type: t, Field: "n", GroupBy: g, Collection: col})
			}
		}
	}
	runSeqs(w, "seq", ops, w.Pick(3, 4), func(c *vk.C) *env {
		e := newEnv(c, cfgT{"plain", 2, nil})
		opCreateColl("c_1", 2).do(e)
		return e
	}, func(e *env) {
		for _, q := range grid {
			judgeAgg(e, q)
		}
		for _, ff := range []map[string]core.FacetFilter{{"s": {Type: core.FilterTypeEquals, Values: vals("x")}}, {"n": {Type: core.FilterTypeExists}}} {
			judgeFacets(e, core.FacetedSearchOptions{SearchOptions: core.SearchOptions{TopK: 5}, Facets: ff, ReturnFacets: true})
		}
	})
}

// ---- facets ----

// refFacet evaluates one facet filter; sure is false where its meaning is not
// specified.
func refFacet(f core.FacetFilter, m map[string]string, field string) (bool, bool) {
	v, has := m[field]
	switch f.Type {
	case core.FilterTypeEquals:
		return has && v == refText(f.Values[0]), true
	case core.FilterTypeIn:
		for _, x := range f.Values {
			if has && v == refText(x) {
				return true, true
			}
		}
		return false, true
	case core.FilterTypeRange:
		if !has {
			return false, true
		}
		n, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return false, false
		}
		return (f.Min == nil || n >= refNum(f.Min)) && (f.Max == nil || n <= refNum(f.Max)), true
	case core.FilterTypeContains:
		m := strings.Contains(v, f.Pattern)
		return has && m, !has || m == strings.Contains(strings.ToLower(v), strings.ToLower(f.Pattern))
	case core.FilterTypePrefix:
		m := strings.HasPrefix(v, f.Pattern)
		return has && m, !has || m == strings.HasPrefix(strings.ToLower(v), strings.ToLower(f.Pattern))
	case core.FilterTypeExists:
		return has, true
	case core.FilterTypeNested:
		and, or, sure := true, false, true
		for _, x := range f.Nested {
			ok, s := refFacet(x, m, field)
			and, or, sure = and && ok, or || ok, sure && s
		}
		switch f.Operator {
		case core.OperatorOR:
			return or, sure
		case core.OperatorNOT:
			return !and, sure
		}
		return and, sure
	}
	panic("facet")
}

func facetStr(f core.FacetFilter) string {
	s := string(f.Type)
	if f.Values != nil {
		s += fmt.Sprint(f.Values)
	}
	if f.Min != nil || f.Max != nil {
		s += fmt.Sprintf("[%v..%v]", f.Min, f.Max)
	}
	s += f.Pattern
	if f.Nested != nil {
		s += string(f.Operator) + "("
		for _, x := range f.Nested {
			s += facetStr(x) + " "
		}
		s += ")"
	}
	return s
}

func judgeFacets(e *env, o core.FacetedSearchOptions) {
	c := e.c
	c.Trans(1)
	q := []float32{1, 0.5}
	got, counts, err := e.s.SearchWithFacets(bg, q, o)
	what := func() string {
		var l []string
		for k, f := range o.Facets {
			l = append(l, k+":"+facetStr(f))
		}
		sort.Strings(l)
		return fmt.Sprintf("SearchWithFacets(%s, %+v, max %d) of %s", strings.Join(l, " & "), o.SearchOptions, o.MaxFacetValues, e.m)
	}
	if err != nil {
		c.Failf("error", "%s: %v", what(), err)
		return
	}
	want := map[string]float64{}
	var scores []float64
	for _, id := range e.m.ids() {
		r := e.m.rows[id]
		ok := o.Collection == "" || collOf(r) == o.Collection
		for k, v := range o.Filter {
			x, has := r.meta[k]
			ok = ok && has && x == v
		}
		for k, f := range o.Facets {
			m, sure := refFacet(f, r.meta, k)
			if !sure {
				return
			}
			ok = ok && m
		}
		sc := refCos(q, r.vec)
		if ok && (o.Threshold <= 0 || sc >= o.Threshold) {
			want[id] = sc
			scores = append(scores, sc)
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(scores)))
	k := o.TopK
	if k <= 0 {
		k = 10
	}
	if len(got) != min(k, len(want)) {
		c.Failf("match", "%s returns %s, want %d of %v", what(), resStr(got), min(k, len(want)), want)
		return
	}
	seen := map[string]bool{}
	for i, g := range got {
		sc, ok := want[g.ID]
		if !ok || seen[g.ID] || math.Abs(g.Score-sc) > 1e-5 || math.Abs(g.Score-scores[i]) > 1e-5 {
			c.Failf("match", "%s returns %s, want %v", what(), resStr(got), want)
			return
		}
		seen[g.ID] = true
		r := e.m.rows[g.ID]
		if g.Content != r.content || metaStr(g.Metadata) != metaStr(r.meta) || g.Collection != collOf(r) {
			c.Failf("row", "%s returns %s with content %q metadata %v collection %q", what(), g.ID, g.Content, g.Metadata, g.Collection)
			return
		}
	}
	if !o.ReturnFacets {
		if len(counts) > 0 {
			c.Failf("counts", "%s returns counts %v", what(), counts)
		}
		return
	}
	lim := o.MaxFacetValues
	if lim <= 0 {
		lim = 10
	}
	fields := map[string]bool{}
	for _, fc := range counts {
		if _, ok := o.Facets[fc.Field]; !ok || fields[fc.Field] {
			c.Failf("counts", "%s returns counts of %s", what(), fc.Field)
			return
		}
		fields[fc.Field] = true
	}
	for f := range o.Facets {
		ref := map[string]int{}
		for _, r := range e.m.rows {
			if v, ok := r.meta[f]; ok && (o.Collection == "" || collOf(r) == o.Collection) {
				ref[v]++
			}
		}
		if fields[f] != (len(ref) > 0) {
			c.Failf("counts", "%s: counts of %s present: %v, want %v", what(), f, fields[f], ref)
			return
		}
		for _, fc := range counts {
			if fc.Field != f {
				continue
			}
			var ns []int
			for _, n := range ref {
				ns = append(ns, n)
			}
			sort.Sort(sort.Reverse(sort.IntSlice(ns)))
			ns = ns[:min(lim, len(ns))]
			var gs []int
			sum := 0
			for v, n := range fc.Values {
				if ref[v] != n {
					c.Failf("counts", "%s: %s=%s counted %d, want %v", what(), f, v, n, ref)
					return
				}
				gs = append(gs, n)
				sum += n
			}
			sort.Sort(sort.Reverse(sort.IntSlice(gs)))
			if fmt.Sprint(gs) != fmt.Sprint(ns) || fc.Total != sum {
				c.Failf("counts", "%s: counts of %s %v (total %d), want %v", what(), f, fc.Values, fc.Total, ref)
				return
			}
		}
	}
}

func facetLeaves() []core.FacetFilter {
	l := []core.FacetFilter{{Type: core.FilterTypeExists}}
	for _, v := range []interface{}{"x", "y", 1, 1.5, true, "", "it's", "10", -2} {
		l = append(l, core.FacetFilter{Type: core.FilterTypeEquals, Values: vals(v)})
	}
	l = append(l,
		core.FacetFilter{Type: core.FilterTypeIn, Values: vals("x")},
		core.FacetFilter{Type: core.FilterTypeIn, Values: vals("x", "y", 1)},
		core.FacetFilter{Type: core.FilterTypeIn, Values: vals(10, false)},
	)
	for _, v := range [][2]interface{}{{1, nil}, {nil, 1}, {1, 1}, {1.2, 20}, {-5, 1.5}, {5, 2}} {
		l = append(l, core.FacetFilter{Type: core.FilterTypeRange, Min: v[0], Max: v[1]})
	}
	for _, v := range []string{"x", "1", "yz", ".", "'"} {
		l = append(l, core.FacetFilter{Type: core.FilterTypeContains, Pattern: v}, core.FacetFilter{Type: core.FilterTypePrefix, Pattern: v})
	}
	return l
}

var facetRows = []row{
	{}, {meta: map[string]string{"s": "x", "n": "1"}}, {meta: map[string]string{"s": "xyz", "n": "1.5", "a.b": "x"}},
	{coll: "c_1", meta: map[string]string{"s": "y", "n": "10"}}, {coll: "c_1", meta: map[string]string{"s": "ayz", "n": "-2"}},
	{coll: "c_1", meta: map[string]string{"s": "it's", "n": "1", "it's": "x"}}, {meta: map[string]string{"s": "", "n": "20"}},
	{meta: map[string]string{"s": "true", "n": "0"}}, {coll: "c_1", meta: map[string]string{"n": "5"}}, {meta: map[string]string{"s": "x"}},
	{meta: map[string]string{"s": "x", "n": "1", "a": "x"}}, {coll: "c_1", meta: map[string]string{"s": "false", "n": "10"}},
	{coll: "c_1", meta: map[string]string{"s": "X", "n": "1.0"}}, {meta: map[string]string{"s": " x", "n": "01"}},
}

func facets(w *vk.W) {
	leaves := facetLeaves()
	nest := func(o core.LogicalOperator, l ...core.FacetFilter) core.FacetFilter {
		return core.FacetFilter{Type: core.FilterTypeNested, Operator: o, Nested: l}
	}
	filters := append([]core.FacetFilter(nil), leaves...)
	for _, a := range leaves {
		filters = append(filters, nest(core.OperatorNOT, a), nest(core.OperatorAND, a))
		for _, b := range leaves {
			filters = append(filters, nest(core.OperatorAND, a, b), nest(core.OperatorOR, a, b))
			if w.Thorough() {
				filters = append(filters, nest(core.OperatorOR, nest(core.OperatorNOT, a), b), nest(core.OperatorAND, nest(core.OperatorOR, a, b), leaves[2]), nest(core.OperatorNOT, nest(core.OperatorOR, a, b)), nest("", a, b))
			}
		}
	}
	mk := func(c *vk.C) *env {
		e := newEnv(c, cfgT{"plain", 2, nil})
		opCreateColl("c_1", 2).do(e)
		for i, r := range facetRows {
			r.id, r.vec, r.content = fmt.Sprintf("r%02d", i), []float32{float32(6 - i), float32(i) + 0.5}, fmt.Sprintf("text %d", i)
			opUpsert("", r).do(e)
		}
		return e
	}
	per := 100
	for at := 0; at < len(filters); at += per {
		chunk := filters[at:min(at+per, len(filters))]
		w.Case(fmt.Sprintf("facets|%d", at), func(c *vk.C) {
			e := mk(c)
			for i, f := range chunk {
				for j, field := range []string{"s", "n", "a.b", "it's", "missing"} {
					if j > 1 && (i+j)%5 != 0 {
						continue
					}
					c.State(field + facetStr(f))
					ff := map[string]core.FacetFilter{field: f}
					judgeFacets(e, core.FacetedSearchOptions{SearchOptions: core.SearchOptions{TopK: 50}, Facets: ff})
					judgeFacets(e, core.FacetedSearchOptions{SearchOptions: core.SearchOptions{TopK: 2, Collection: "c_1"}, Facets: ff, ReturnFacets: true, MaxFacetValues: i % 4})
				}
			}
		})
	}
	for i, a := range leaves {
		i, a := i, a
		w.Case(fmt.Sprintf("pairs|%d", i), func(c *vk.C) {
			e := mk(c)
			for j, b := range leaves {
				ff := map[string]core.FacetFilter{"s": a, "n": b}
				c.State(facetStr(a) + "&" + facetStr(b))
				judgeFacets(e, core.FacetedSearchOptions{SearchOptions: core.SearchOptions{TopK: 50}, Facets: ff, ReturnFacets: true, MaxFacetValues: j % 5})
				for _, o := range []core.SearchOptions{{}, {TopK: 1}, {TopK: 3, Threshold: 0.5}, {TopK: 50, Filter: map[string]string{"n": "1"}}, {TopK: 50, Collection: "nope"}, {TopK: 50, Collection: "default", Filter: map[string]string{"a.b": "x"}}} {
					judgeFacets(e, core.FacetedSearchOptions{SearchOptions: o, Facets: ff})
				}
			}
		})
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C29",
		Rule: "every set of up to three rows out of eight kinds, times a grid of aggregation requests (type, field, grouping, filters, collection, having, order, limit); every facet filter of a grammar (leaves, NOT, AND/OR of two) and every pair of facets over fourteen rows; tables of 12, 60 and 330 rows with more groups and values than any page; every sequence of writes followed by a smaller grid: all compared with definitions evaluated on the rows",
		Assumptions: []string{
			"aggregated fields hold numbers; order between a number and its text form is not judged",
			"text facets are used with patterns without wildcards",
		},
		Run: func(w *vk.W) {
			facets(w)
			aggMany(w)
			aggSeqs(w)
			aggData(w)
		}})
}
