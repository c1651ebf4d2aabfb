package checks

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// ---- reference semantics of metadata filters, over string metadata ----
//
// A comparison on a missing field is false, except !=, which is true. <, <=, >,
// >= and BETWEEN compare as numbers, = and IN compare the text form of the
// value, LIKE is SQL's (% and _, ASCII case ignored). AND, OR, NOT are
// two-valued.

type fx struct {
	op   core.FilterOperator
	f    string
	v    interface{}
	kids []*fx
}

func (x *fx) expr() *core.FilterExpression {
	e := &core.FilterExpression{Operator: x.op, Field: x.f, Value: x.v}
	for _, k := range x.kids {
		e.Children = append(e.Children, k.expr())
	}
	return e
}

func (x *fx) String() string {
	switch x.op {
	case core.FilterAND, core.FilterOR:
		var l []string
		for _, k := range x.kids {
			l = append(l, k.String())
		}
		return "(" + strings.Join(l, " "+string(x.op)+" ") + ")"
	case core.FilterNOT:
		return "NOT " + x.kids[0].String()
	}
	return fmt.Sprintf("%s%s%#v", x.f, x.op, x.v)
}

func refText(v interface{}) string {
	switch t := v.(type) {
	case string:
		return t
	case bool:
		return strconv.FormatBool(t)
	case int:
		return strconv.Itoa(t)
	case int64:
		return strconv.FormatInt(t, 10)
	case float64:
		return strconv.FormatFloat(t, 'f', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(t), 'f', -1, 64)
	}
	panic("value")
}

func refNum(v interface{}) float64 {
	f, err := strconv.ParseFloat(refText(v), 64)
	if err != nil {
		return math.NaN()
	}
	return f
}

// refLike is the textbook recursive matcher.
func refLike(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '%' {
		for i := 0; i <= len(s); i++ {
			if refLike(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if s == "" {
		return false
	}
	lo := func(b byte) byte {
		if b >= 'A' && b <= 'Z' {
			return b + 32
		}
		return b
	}
	return (p[0] == '_' || lo(p[0]) == lo(s[0])) && refLike(p[1:], s[1:])
}

func (x *fx) match(m map[string]string) bool {
	switch x.op {
	case core.FilterAND:
		for _, k := range x.kids {
			if !k.match(m) {
				return false
			}
		}
		return true
	case core.FilterOR:
		for _, k := range x.kids {
			if k.match(m) {
				return true
			}
		}
		return false
	case core.FilterNOT:
		return !x.kids[0].match(m)
	}
	v, ok := m[x.f]
	if x.op == core.FilterNE {
		return !ok || v != refText(x.v)
	}
	if !ok {
		return false
	}
	switch x.op {
	case core.FilterEQ:
		return v == refText(x.v)
	case core.FilterGT:
		return refNum(v) > refNum(x.v)
	case core.FilterGTE:
		return refNum(v) >= refNum(x.v)
	case core.FilterLT:
		return refNum(v) < refNum(x.v)
	case core.FilterLTE:
		return refNum(v) <= refNum(x.v)
	case core.FilterBETWEEN:
		l := x.v.([]interface{})
		return refNum(v) >= refNum(l[0]) && refNum(v) <= refNum(l[1])
	case core.FilterIN:
		for _, e := range x.v.([]interface{}) {
			if v == refText(e) {
				return true
			}
		}
		return false
	case core.FilterLIKE:
		return refLike(x.v.(string), v)
	}
	panic("op")
}

// str renders x in the filter-string syntax, with the parentheses precedence
// requires (prec: 0 in OR, 1 in AND); ok is false where the syntax has no form.
func (x *fx) str(prec int) (string, bool) {
	lit := func(v interface{}) (string, bool) {
		switch t := v.(type) {
		case string:
			if strings.Contains(t, "'") {
				return "\"" + t + "\"", !strings.Contains(t, "\"")
			}
			return "'" + t + "'", true
		case float64, int, bool:
			return refText(t), true
		}
		return "", false
	}
	switch x.op {
	case core.FilterAND, core.FilterOR:
		p := 0
		if x.op == core.FilterAND {
			p = 1
		}
		var l []string
		for _, k := range x.kids {
			s, ok := k.str(p)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		s := strings.Join(l, " "+string(x.op)+" ")
		if prec > p {
			s = "(" + s + ")"
		}
		return s, true
	case core.FilterNOT, core.FilterLIKE:
		return "", false
	case core.FilterBETWEEN:
		l := x.v.([]interface{})
		a, ok1 := lit(l[0])
		b, ok2 := lit(l[1])
		return x.f + " BETWEEN " + a + " AND " + b, ok1 && ok2
	case core.FilterIN:
		var l []string
		for _, v := range x.v.([]interface{}) {
			s, ok := lit(v)
			if !ok || strings.Contains(s, ",") {
				return "", false
			}
			l = append(l, s)
		}
		return x.f + " IN (" + strings.Join(l, ", ") + ")", len(l) > 0
	}
	s, ok := lit(x.v)
	ok = ok && !strings.Contains(x.f, "'") // a quote in a field name has no form
	return x.f + string(x.op) + s, ok
}

// build makes the same filter with the fluent builder; nil where it has no form.
func (x *fx) build() *core.MetadataFilter {
	b := core.NewMetadataFilter()
	switch x.op {
	case core.FilterAND:
		for _, k := range x.kids {
			kb := k.build()
			if kb == nil {
				return nil
			}
			b = b.And(kb)
		}
		return b
	case core.FilterOR:
		for _, k := range x.kids {
			kb := k.build()
			if kb == nil {
				return nil
			}
			b = b.Or(kb)
		}
		return b
	case core.FilterNOT:
		if k := x.kids[0]; k.op == core.FilterIN {
			return b.NotIn(k.f, k.v.([]interface{})...)
		}
		return nil
	case core.FilterEQ:
		return b.Equal(x.f, x.v)
	case core.FilterNE:
		return b.NotEqual(x.f, x.v)
	case core.FilterGT:
		return b.GreaterThan(x.f, x.v)
	case core.FilterGTE:
		return b.GreaterThanOrEqual(x.f, x.v)
	case core.FilterLT:
		return b.LessThan(x.f, x.v)
	case core.FilterLTE:
		return b.LessThanOrEqual(x.f, x.v)
	case core.FilterBETWEEN:
		l := x.v.([]interface{})
		return b.Between(x.f, l[0], l[1])
	case core.FilterIN:
		return b.In(x.f, x.v.([]interface{})...)
	case core.FilterLIKE:
		return b.Like(x.f, x.v.(string))
	}
	return nil
}

func plainWord(s string) bool {
	for _, r := range s {
		if r < 'a' || r > 'z' {
			return false
		}
	}
	return s != "" && s != "true" && s != "false" && s != "inf" && s != "nan" && s != "infinity"
}

var c08rows = []map[string]string{
	nil, {}, {"n": "0"}, {"n": "1"}, {"n": "2"}, {"n": "10"}, {"n": "-2"}, {"n": "1.5"}, {"n": "9", "s": "ab"}, {"s": "AB", "n": "1"}, {"s": "a%b"}, {"s": "axb", "n": "10"},
	{"s": ""}, {"s": "true"}, {"a.b": "v", "s": "x'y"}, {"a": "v", "b": "v", "n": "2"}, {"s": "Ünï 名"}, {"s": "1"}, {"s": "abab", "n": "-10"}, {"s": "a\nb", "q\"k": "v"}, {"s": "yes", "n": "1e3"}, {"s": "off", "Kind": "v", "kind": "w"}, {"KIND": "v", "kind": "v"},
}

func leaf(op core.FilterOperator, f string, v interface{}) *fx { return &fx{op: op, f: f, v: v} }
func vals(l ...interface{}) []interface{}                      { return l }

func c08leaves() []*fx {
	var l []*fx
	for _, op := range []core.FilterOperator{core.FilterGT, core.FilterGTE, core.FilterLT, core.FilterLTE} {
		for _, v := range []interface{}{1, 2.0, -2, 10, 1.5, int64(0), float32(1.5), "10", 3} {
			l = append(l, leaf(op, "n", v))
		}
		l = append(l, leaf(op, "missing", 0))
	}
	for _, op := range []core.FilterOperator{core.FilterEQ, core.FilterNE} {
		for _, v := range []interface{}{"1", 1, 1.5, -2, 10.0, int64(9), float32(1.5), "10", 7} {
			l = append(l, leaf(op, "n", v))
		}
		for _, v := range []interface{}{"ab", "AB", "a%b", "", true, "x'y", "Ünï 名", "nope", 1, "yes", "off"} {
			l = append(l, leaf(op, "s", v))
		}
		l = append(l, leaf(op, "missing", "x"), leaf(op, "a.b", "v"), leaf(op, "a", "v"), leaf(op, "$.a", "v"), leaf(op, "it's", "v"), leaf(op, "Kind", "v"), leaf(op, "kind", "v"))
	}
	for _, b := range [][2]interface{}{{1, 2}, {1, 1}, {2, 1}, {-2, 1.5}, {9, 10}, {"1", "10"}, {-100.0, 100.0}} {
		l = append(l, leaf(core.FilterBETWEEN, "n", vals(b[0], b[1])))
	}
	for _, v := range [][]interface{}{vals("1"), vals(1, 2), vals("ab", "AB"), vals(), vals(1.5, -2, "zz"), vals("zz", "yes", 7, 2, "off", 10, "true", -2)} {
		l = append(l, leaf(core.FilterIN, "n", v), leaf(core.FilterIN, "s", v))
	}
	for _, p := range []string{"a%", "%b", "a_b", "%", "", "ab", "%B%", "a%b%", "_", "x'y", "__", "%a%b"} {
		l = append(l, leaf(core.FilterLIKE, "s", p))
	}
	return append(l, leaf(core.FilterLIKE, "missing", "%"))
}

func c08small() []*fx {
	return []*fx{leaf(core.FilterEQ, "n", "1"), leaf(core.FilterNE, "s", "ab"), leaf(core.FilterGT, "n", 1), leaf(core.FilterLTE, "n", 1.5), leaf(core.FilterBETWEEN, "n", vals(1, 9)),
		leaf(core.FilterIN, "s", vals("ab", "AB")), leaf(core.FilterLIKE, "s", "a%"), leaf(core.FilterEQ, "missing", "x"), leaf(core.FilterNE, "missing", "x"), leaf(core.FilterLT, "n", 2)}
}

func fnode(op core.FilterOperator, kids ...*fx) *fx { return &fx{op: op, kids: kids} }

func c08asts(thorough bool) []*fx {
	ls := c08leaves()
	var all []*fx
	all = append(all, ls...)
	for _, x := range ls {
		all = append(all, fnode(core.FilterNOT, x), fnode(core.FilterNOT, fnode(core.FilterNOT, x)))
	}
	sm := c08small()
	bin := []core.FilterOperator{core.FilterAND, core.FilterOR}
	for _, o := range bin {
		for _, a := range ls {
			for _, b := range sm {
				all = append(all, fnode(o, a, b), fnode(o, b, a))
			}
		}
		for _, a := range sm {
			for _, b := range sm {
				all = append(all, fnode(core.FilterNOT, fnode(o, a, b)), fnode(o, fnode(core.FilterNOT, a), b))
			}
		}
	}
	t := sm
	if !thorough {
		t = sm[:6]
	}
	for _, o := range bin {
		for _, p := range bin {
			for _, a := range t {
				for _, b := range t {
					for _, c := range t {
						all = append(all, fnode(o, fnode(p, a, b), c), fnode(o, a, fnode(p, b, c)))
						if thorough || o == p {
							all = append(all, fnode(o, a, fnode(core.FilterNOT, fnode(p, b, c))))
						}
					}
				}
			}
		}
	}
	four := []*fx{leaf(core.FilterEQ, "n", "1"), leaf(core.FilterEQ, "s", "ab"), leaf(core.FilterGT, "n", 1), leaf(core.FilterLIKE, "s", "a%")}
	for i := 0; i < 8; i++ {
		o, p, q := bin[i&1], bin[i>>1&1], bin[i>>2&1]
		for _, a := range four {
			for _, b := range four[1:] {
				for _, c := range four {
					for _, d := range four[1:] {
						if a != b && c != d && (thorough || a != c) {
							all = append(all, fnode(o, fnode(p, a, b), fnode(q, c, d)))
						}
					}
				}
			}
		}
	}
	for _, o := range bin {
		for _, a := range sm[:5] {
			for _, b := range sm[2:6] {
				for _, c := range sm[4:8] {
					all = append(all, fnode(o, a, b, c))
				}
			}
		}
	}
	return all
}

func init() {
	vk.Register(&vk.Check{ID: "C08", Rule: "every filter expression of a grammar (all comparison leaves over a value grid, NOT, AND/OR of two leaves, all shapes with three leaves over a reduced set) times 23 metadata rows: pre-filter, post-filter, filter string, builder, export filter and DeleteByFilter against the reference evaluator",
		Run: func(w *vk.W) {
			asts := c08asts(w.Thorough())
			per := 40
			var ids []string
			for i := range c08rows {
				ids = append(ids, fmt.Sprintf("r%02d", i))
			}
			hn := func(c *core.Config) { c.HNSW.Enabled = true }
			for at := 0; at < len(asts); at += per {
				chunk := asts[at:min(at+per, len(asts))]
				w.Case(fmt.Sprintf("asts|%d", at), func(c *vk.C) {
					c.Defer(coins(1))
					ct := cfgT{"plain", 2, nil}
					if (at/per)%2 == 1 {
						ct = cfgT{"hnsw", 2, hn}
					}
					e := newEnv(c, ct)
					opCreateColl("c1", 2).do(e)
					mk := func(i int) row {
						r := row{id: ids[i], vec: []float32{float32(1 + i), float32(3 - i)}, content: "x", meta: c08rows[i]}
						if i%3 == 0 {
							r.coll = "c1"
						}
						return r
					}
					for i := range ids {
						opUpsert("", mk(i)).do(e)
					}
					check := func(x *fx, how string, coll string, got []core.ScoredEmbedding, err error) {
						if err != nil {
							c.Failf("err:"+how, "%s with %s: %v", how, x, err)
						}
						c.Count("evaluations", 1)
						in := map[string]bool{}
						for _, g := range got {
							in[g.ID] = true
						}
						for i, id := range ids {
							want := x.match(c08rows[i]) && (coll == "" || i%3 == 0)
							if in[id] != want {
								c.Failf("match:"+how, "%s with %s collection=%q: metadata %v selected=%v, want %v", how, x, coll, c08rows[i], in[id], want)
							}
						}
						if len(in) != len(got) {
							c.Failf("dup", "%s with %s: duplicates %s", how, x, resStr(got))
						}
					}
					q := []float32{1, 1}
					for _, x := range chunk {
						c.State(x.String())
						for _, coll := range []string{"", "c1"} {
							so := core.SearchOptions{TopK: 50, Collection: coll}
							got, err := e.s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: so, PreFilter: x.expr()})
							check(x, "PreFilter", coll, got, err)
							got, err = e.s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: so, PostFilter: x.expr()})
							check(x, "PostFilter", coll, got, err)
						}
						if s, ok := x.str(0); ok {
							forms := []string{s, "(" + s + ")", "  " + s + " "}
							if v, isText := x.v.(string); isText && plainWord(v) && len(x.kids) == 0 {
								forms = append(forms, strings.ReplaceAll(s, "'", "")) // a word needs no quotes
							}
							for _, str := range forms {
								fe, err := core.ParseFilterString(str)
								if err != nil {
									c.Failf("parse", "ParseFilterString(%q): %v", str, err)
								}
								got, err := e.s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: core.SearchOptions{TopK: 50}, PreFilter: fe})
								check(x, "ParseFilterString("+str+")", "", got, err)
							}
						}
						// the limit applies after the filter
						n := 0
						for i := range ids {
							if x.match(c08rows[i]) {
								n++
							}
						}
						got, err := e.s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: core.SearchOptions{TopK: 2}, PostFilter: x.expr()})
						if err != nil || len(got) != min(n, 2) {
							c.Failf("limit", "PostFilter %s with TopK=2: %d results (%v), %d rows match", x, len(got), err, n)
						}
						if b := x.build(); b != nil {
							got, err := e.s.SearchWithAdvancedFilter(bg, q, core.AdvancedSearchOptions{SearchOptions: core.SearchOptions{TopK: 50}, PreFilter: b.Build()})
							check(x, "builder", "", got, err)
						}
					}
					for _, x := range chunk {
						b := x.build()
						if b == nil {
							continue
						}
						c.Trans(1)
						if err := e.s.DeleteByFilter(bg, b); err != nil {
							c.Failf("delerr", "DeleteByFilter(%s): %v", x, err)
						}
						var want []string
						var gone []int
						for i, id := range ids {
							if x.match(c08rows[i]) {
								gone = append(gone, i)
							} else {
								want = append(want, id)
							}
						}
						all, err := e.s.Search(bg, q, core.SearchOptions{TopK: 50})
						if err != nil {
							c.Failf("search", "Search after DeleteByFilter: %v", err)
						}
						var left []string
						for _, g := range all {
							left = append(left, g.ID)
						}
						sort.Strings(left)
						st, _ := e.s.Stats(bg)
						if !sameStrs(left, want) || int(st.Count) != len(want) {
							c.Failf("delete", "DeleteByFilter(%s) left %v (count %d), want %v", x, left, st.Count, want)
						}
						for _, i := range gone {
							if err := e.s.Upsert(bg, toEmb(mk(i))); err != nil {
								c.Failf("upsert", "%v", err)
							}
						}
					}
				})
			}
			// key/value maps: SearchOptions.Filter and SearchWithFilter
			w.Case("maps", func(c *vk.C) {
				e := newEnv(c, cfgT{"plain", 2, nil})
				for i := range ids {
					opUpsert("", row{id: ids[i], vec: []float32{float32(1 + i), 1}, content: "x", meta: c08rows[i]}).do(e)
				}
				vs := []string{"0", "1", "2", "10", "-2", "1.5", "ab", "AB", "a%b", "", "true", "x'y", "v", "nope", "9"}
				keys := []string{"n", "s", "a.b", "a", "b", "missing", "q\"k"}
				for _, k1 := range keys {
					for _, v1 := range vs {
						for _, k2 := range keys {
							if k2 < k1 {
								continue
							}
							for _, v2 := range vs {
								if k1 == k2 && v1 != v2 {
									continue
								}
								f := map[string]string{k1: v1, k2: v2}
								mf := map[string]interface{}{k1: v1, k2: v2}
								want := e.m.eligible([]float32{1, 1}, refCos, "", f, 0, nil)
								got, err := e.s.Search(bg, []float32{1, 1}, core.SearchOptions{TopK: 50, Filter: f})
								if err != nil {
									c.Failf("err:Search", "Search(filter %v): %v", f, err)
								}
								checkBest(c, fmt.Sprintf("Search(filter %v)", f), got, want, 50, e.m.rows)
								got, err = e.s.SearchWithFilter(bg, []float32{1, 1}, core.SearchOptions{TopK: 50}, mf)
								if err != nil {
									c.Failf("err:SearchWithFilter", "SearchWithFilter(%v): %v", mf, err)
								}
								checkBest(c, fmt.Sprintf("SearchWithFilter(%v)", mf), got, want, 50, e.m.rows)
								c.Count("evaluations", 2)
							}
						}
					}
				}
			})
			w.Case("typedmaps", func(c *vk.C) {
				e := newEnv(c, cfgT{"plain", 2, nil})
				for i := range ids {
					opUpsert("", row{id: ids[i], vec: []float32{float32(1 + i), 1}, content: "x", meta: c08rows[i]}).do(e)
				}
				// numbers whose text depends on how they are written out
				big := []map[string]string{{"n": "1000000"}, {"n": "0.123456789"}, {"n": "9007199254740993"}, {"n": "16777217"}, {"n": "-0.00001"}, {"n": "1234567.25"}}
				for i, m := range big {
					opUpsert("", row{id: fmt.Sprintf("big%d", i), vec: []float32{float32(20 + i), 1}, content: "x", meta: m}).do(e)
				}
				tv := []interface{}{0, 1, 2, 10, -2, 1.5, 9, true, "ab", "", 10.0, -10, false, 1000000, 1e6, int64(1000000), 0.123456789, int64(9007199254740993), 16777217, 16777217.0, -0.00001, 1234567.25}
				for _, k := range []string{"n", "s", "missing"} {
					for _, v := range tv {
						for _, v2 := range tv {
							for _, coll := range []string{"", "default"} {
								mf := map[string]interface{}{k: v, "n": v2}
								f := map[string]string{k: refText(v), "n": refText(v2)}
								got, err := e.s.SearchWithFilter(bg, []float32{1, 1}, core.SearchOptions{TopK: 3, Collection: coll}, mf)
								if err != nil {
									c.Failf("err:SearchWithFilter", "SearchWithFilter(%v): %v", mf, err)
								}
								c.Count("evaluations", 1)
								checkBest(c, fmt.Sprintf("SearchWithFilter(%v)", mf), got, e.m.eligible([]float32{1, 1}, refCos, coll, f, 0, nil), 3, e.m.rows)
							}
						}
					}
				}
			})
			w.Case("empty", func(c *vk.C) {
				e := newEnv(c, cfgT{"plain", 2, nil})
				for i := range ids {
					opUpsert("", row{id: ids[i], vec: []float32{1, 1}, content: "x", meta: c08rows[i]}).do(e)
				}
				for _, f := range []*core.MetadataFilter{nil, core.NewMetadataFilter(), core.NewMetadataFilter().And(nil), core.NewMetadataFilter().Or(core.NewMetadataFilter())} {
					if err := e.s.DeleteByFilter(bg, f); err == nil {
						c.Failf("empty", "DeleteByFilter accepted an empty filter")
					}
					e.observeRows(ids)
				}
			})
		}})
}
