package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

var (
	v1 = []float32{1, 0}
	v2 = []float32{0.5, 0.25}
	v3 = []float32{-0.25, 1}
	v4 = []float32{0, -2}
)

func crudOps() []op {
	return []op{
		opUpsert("U(a)", row{id: "a", vec: v1, content: "alpha", meta: map[string]string{"type": "x"}}),
		opUpsert("U(a,c1,acl)", row{id: "a", coll: "c1", vec: v2, content: "beta", meta: map[string]string{"type": "y", "k": "'q\"\\"}, acl: []string{"u1", "g:2"}}),
		opUpsert("U(b,d1)", row{id: "b", vec: v3, content: "", doc: "d1"}),
		opUpsert("U(b,c1,d2)", row{id: "b", coll: "c1", vec: v4, content: "gamma", doc: "d2", meta: map[string]string{}}),
		opBatch("UB(a:d1,b:c1)", row{id: "a", vec: v3, content: "delta", doc: "d1", meta: map[string]string{"type": "x"}, acl: []string{"u2"}}, row{id: "b", coll: "c1", vec: v1, content: "eps", meta: map[string]string{"type": "x"}}),
		opBatch("UB(a,a)", row{id: "a", vec: v1, content: "one"}, row{id: "a", vec: v2, content: "two", meta: map[string]string{"type": "Y"}}),
		opBatch("UB(b,nocoll)", row{id: "b", vec: v1, content: "one"}, row{id: "a", coll: "nope", vec: v2, content: "two"}),
		opBatch("UB(a,nodoc)", row{id: "a", vec: v1, content: "one"}, row{id: "b", vec: v2, content: "two", doc: "nodoc"}),
		opUpsert("U(a,baddim)", row{id: "a", vec: []float32{1, 2, 3}, content: "bad"}),
		opDelete("a"),
		opDelete("b"),
		opDeleteBatch("a", "", "zz", "b"),
		opDeleteBatch("b", "b"),
		opDeleteByDoc("d1"),
		opClearDocs("d2", "", "d1"),
		opDeleteFilter("type=x", func() *core.MetadataFilter { return core.NewMetadataFilter().Equal("type", "x") }, func(r row) bool { return r.meta["type"] == "x" }),
		opClear,
		opCreateColl("c1", 2),
		opDropColl("c1"),
		opCreateDoc(docRow{id: "d1", title: "T1", version: 1, author: "au", acl: []string{"u1"}, meta: map[string]any{"k": "v", "n": 1.5, "deep": map[string]any{"l": []any{"x", nil, true}}}}),
		opDropDoc("d1"),
		opUpdateDoc(docRow{id: "d1", title: "T2", version: 2, author: "bu", content: "body", url: "http://x"}),
		opUpdateDoc(docRow{id: "d2", title: "T0", version: 1, author: "au"}),
		opDropDoc("d2"),
		opReopen,
	}
}

// values: every awkward field value, written by each write path over each prior
// state and read back, also after a restart.
func crudValues(w *vk.W) {
	strs := []string{"", " ", "a b", "x'y\"z", "%_\\", "日本語 🙂", "line1\nline2\t", "{\"a\":1}", "null", "[]", "NULL", "0", strings.Repeat("long ", 2000)}
	vecs := [][]float32{{0, 0}, {1, -1}, {math.SmallestNonzeroFloat32, -math.MaxFloat32}, {math.MaxFloat32, float32(math.Copysign(0, -1))}, {0.1, 1.0 / 3}, {1e-30, -1e30}}
	metas := []map[string]string{nil, {}, {"k": ""}, {"": "v"}}
	acls := [][]string{nil, {""}, {"u1"}, {"user:1", "group:x", "user:1"}}
	for _, s := range strs {
		metas = append(metas, map[string]string{"k": s, "n": "1"}, map[string]string{s + "key": "v", "a.b": "c", "$": "d"})
		acls = append(acls, []string{s, "z"})
	}
	var rows []row
	base := row{id: "v", vec: []float32{1, 2}, content: "c"}
	for _, s := range strs {
		r := base
		r.content = s
		rows = append(rows, r)
		if strings.TrimSpace(s) != "" && len(s) < 1000 {
			r = base
			r.id = s
			rows = append(rows, r)
		}
	}
	for _, v := range vecs {
		r := base
		r.vec = v
		rows = append(rows, r)
	}
	for _, m := range metas {
		r := base
		r.meta = m
		rows = append(rows, r)
	}
	for _, a := range acls {
		r := base
		r.acl = a
		rows = append(rows, r)
	}
	full := row{vec: []float32{9, 9}, content: "old", meta: map[string]string{"old": "1", "k": "old"}, acl: []string{"old"}, doc: "d1", coll: "c1"}
	for i, r := range rows {
		for _, mode := range []string{"one", "batch", "batch2", "dupbatch"} {
			for _, prior := range []bool{false, true} {
				r := r
				w.Case(fmt.Sprintf("value%d|%s|prior=%v", i, mode, prior), func(c *vk.C) {
					e := crudEnv(cfgT{name: "plain", dim: 2})(c)
					old := full
					old.id = r.id
					if prior {
						opUpsert("", old).do(e)
					}
					other := row{id: "other", vec: []float32{3, 4}, content: "o", meta: map[string]string{"z": "z"}, acl: []string{"zz"}, doc: "d2", coll: "c1"}
					switch mode {
					case "one":
						opUpsert("", r).do(e)
					case "batch":
						opBatch("", other, r).do(e)
					case "batch2":
						opBatch("", r, other).do(e)
					case "dupbatch":
						opBatch("", old, other, r).do(e)
					}
					c.Trans(1)
					c.State("v" + e.m.String())
					e.observeRows([]string{r.id, "other", "zz"})
					e.reopen()
					e.observeRows([]string{r.id, "other", "zz"})
				})
			}
		}
	}
}

// sizes: batches around every internal chunk size.
func crudSizes(w *vk.W) {
	sizes := []int{1, 2, 3, 99, 100, 101, 128, 256, 257, 499, 500, 501, 998, 999, 1000, 1001, 1002, 1499, 1500, 1501}
	if w.Thorough() {
		sizes = append(sizes, 1999, 2000, 2001, 2500, 2501, 5000, 5001, 10001, 32767)
	}
	for _, n := range sizes {
		for _, mode := range []string{"all", "butlast", "butfirst", "mixed", "docs", "filter", "coll", "refused"} {
			n, mode := n, mode
			w.Case(fmt.Sprintf("size%d|%s", n, mode), func(c *vk.C) {
				e := newEnv(c, cfgT{name: "plain", dim: 2})
				opCreateColl("c1", 2).do(e)
				nd := 1
				if mode == "docs" {
					nd = n
				}
				var docs, ids []string
				for i := 0; i < nd; i++ {
					d := fmt.Sprintf("doc%d", i)
					docs = append(docs, d)
					opCreateDoc(docRow{id: d, title: d, version: 1}).do(e)
				}
				var rs []row
				for i := 0; i < n; i++ {
					r := row{id: fmt.Sprintf("e%04d", i), vec: []float32{float32(i), 1}, content: fmt.Sprint("c", i), meta: map[string]string{"type": "x"}, doc: docs[i%nd], coll: "c1"}
					rs = append(rs, r)
					ids = append(ids, r.id)
				}
				rs = append(rs, row{id: "keep", vec: []float32{1, 1}, content: "keep", coll: "default"})
				if mode == "refused" {
					// the last row is refused for a different reason each time: none may be stored
					last := &rs[len(rs)-1]
					for _, bad := range []row{{doc: "nosuchdoc"}, {coll: "nosuchcoll"}, {id: ""}, {vec: []float32{1, 2, 3}}} {
						good := *last
						switch {
						case bad.doc != "":
							last.doc = bad.doc
						case bad.coll != "":
							last.coll = bad.coll
						case bad.vec != nil:
							last.vec = bad.vec
						default:
							last.id = ""
						}
						opBatch("", rs...).do(e)
						*last = good
						e.observeRows([]string{ids[0], ids[n-1], "keep"})
					}
				}
				opBatch("", rs...).do(e)
				e.observeRows(append(append([]string{}, ids...), "keep"))
				switch mode {
				case "all":
					opDeleteBatch(ids...).do(e)
				case "butlast":
					opDeleteBatch(ids[:n-1]...).doIf(e, n > 1)
				case "butfirst":
					opDeleteBatch(ids[1:]...).doIf(e, n > 1)
				case "mixed":
					var l []string
					for i, id := range ids {
						l = append(l, id)
						if i%3 == 0 {
							l = append(l, fmt.Sprint("missing", i), "")
						}
					}
					opDeleteBatch(l...).do(e)
				case "docs":
					opClearDocs(docs...).do(e)
				case "filter":
					opDeleteFilter("type=x", func() *core.MetadataFilter { return core.NewMetadataFilter().Equal("type", "x") }, func(r row) bool { return r.meta["type"] == "x" }).do(e)
				case "coll":
					opDropColl("c1").do(e)
				}
				c.Trans(2)
				e.observeRows(append(append([]string{}, ids...), "keep"))
			})
		}
	}
}

// names: ids, documents and collections that differ only in case, blanks, a
// pattern character or a suffix are different things to every operation.
var confusable = []string{"a_1", "A_1", "ax1", "a_1 ", " a_1", "a%", "a_10", "a", "a_1'", "a\\_1", "á_1"}

func crudNames(w *vk.W) {
	type nop struct {
		name string
		do   func(e *env, n string)
	}
	nops := []nop{
		{"U", func(e *env, n string) {
			opUpsert("", row{id: n, vec: []float32{7, 7}, content: "new", coll: n, doc: n}).do(e)
		}},
		{"UB", func(e *env, n string) {
			opBatch("", row{id: n, vec: []float32{7, 7}, content: "new", coll: "a", doc: "a"}, row{id: "fresh", vec: []float32{7, 7}, content: "new", coll: n, doc: n}).do(e)
		}},
		{"D", func(e *env, n string) { opDelete(n).do(e) }},
		{"DB", func(e *env, n string) { opDeleteBatch(n, "a").do(e) }},
		{"DDOC", func(e *env, n string) { opDeleteByDoc(n).do(e) }},
		{"CLR", func(e *env, n string) { opClearDocs(n, "a").do(e) }},
		{"DF", func(e *env, n string) {
			opDeleteFilter("k="+n, func() *core.MetadataFilter { return core.NewMetadataFilter().Equal("k", n) }, func(r row) bool { return r.meta["k"] == n }).do(e)
		}},
		{"DC", func(e *env, n string) { opDropColl(n).do(e) }},
		{"CC", func(e *env, n string) { opCreateColl(n, 2).do(e) }},
		{"UD", func(e *env, n string) { opUpdateDoc(docRow{id: n, title: "upd", version: 9}).do(e) }},
		{"CD", func(e *env, n string) { opCreateDoc(docRow{id: n, title: "new", version: 9}).do(e) }},
		{"DD", func(e *env, n string) { opDropDoc(n).do(e) }},
	}
	// present: all names, all but the target, or the target only
	for _, o := range nops {
		for _, n := range confusable {
			for _, present := range []string{"all", "others", "self"} {
				o, n, present := o, n, present
				w.Case(fmt.Sprintf("names|%s|%q|%s", o.name, n, present), func(c *vk.C) {
					e := newEnv(c, cfgT{name: "plain", dim: 2})
					var rs []row
					for i, x := range confusable {
						if (x == n) == (present == "others") && present != "all" {
							continue
						}
						opCreateColl(x, 2).do(e)
						opCreateDoc(docRow{id: x, title: x, version: 1}).do(e)
						rs = append(rs, row{id: x, vec: []float32{float32(i), 1}, content: x, coll: x, doc: x, meta: map[string]string{"k": x, "type": x}})
					}
					opBatch("", rs...).do(e)
					o.do(e, n)
					c.Trans(1)
					c.State("n" + e.m.String())
					e.observeRows(append([]string{"fresh"}, confusable...))
				})
			}
		}
	}
}

func crudEnv(ct cfgT) func(c *vk.C) *env {
	return func(c *vk.C) *env {
		e := newEnv(c, ct)
		opCreateColl("c1", 2).do(e)
		opCreateDoc(docRow{id: "d1", title: "T1", version: 1, author: "au", acl: []string{"u1"}}).do(e)
		opCreateDoc(docRow{id: "d2", title: "T2", version: 3, author: "AU", meta: map[string]any{"": ""}}).do(e)
		return e
	}
}

func init() {
	vk.Register(&vk.Check{ID: "C01", Rule: "every sequence of CRUD operations up to the depth; each prefix observed once through every read API and compared with a map model",
		Run: func(w *vk.W) {
			ct := cfgT{name: "plain", dim: 2}
			crudValues(w)
			crudSizes(w)
			crudNames(w)
			runSeqs(w, "crud", crudOps(), w.Pick(3, 4), crudEnv(ct), func(e *env) { e.observeRows([]string{"a", "b", "zz"}) })
		}})
}
