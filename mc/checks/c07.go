package checks

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// visible is the access rule: a row's own list, else its document's; an empty
// list means public; otherwise one of the principals must be listed verbatim.
func (m *model) visible(r row, principals []string) bool {
	acl := r.acl
	if len(acl) == 0 && r.doc != "" {
		acl = m.docs[r.doc].acl
	}
	if len(acl) == 0 {
		return true
	}
	for _, p := range principals {
		for _, a := range acl {
			if a == p {
				return true
			}
		}
	}
	return false
}

var aclRequests = [][]string{nil, {}, {"u1"}, {"u2"}, {"u1", "u2"}, {"u2", "u1"}, {"u"}, {"u10"}, {"U1"}, {"u1 "}, {" u1"}, {"u1 ", "u2"}, {"%"}, {"u_"}, {""}, {"", "u1"}, {"u2", ""}, {"u1,u2"}, {`["u1"]`},
	{"u1') OR 1=1 --"}, {"user:u1"}, {"x", "y", "u1"}, {"null"}, {"u\"3"}, {"名"}, {"1"}, {"true"}}

var longRequests = [][]string{append(manyNames(20), "u1"), append(manyNames(130), "u2"), append(manyNames(600), "u2", "u1"), append([]string{"u1"}, manyNames(1100)...), manyNames(300)}

func manyNames(n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = fmt.Sprintf("g%d", i)
	}
	return l
}

func (e *env) observeACL() { e.observeACLs(aclRequests) }

func (e *env) observeACLs(requests [][]string) {
	q := []float32{0.7, 0.2}
	for _, req := range requests {
		pred := func(r row) bool { return e.m.visible(r, req) }
		for _, o := range []core.SearchOptions{{TopK: 50}, {TopK: 1}, {TopK: 2, Collection: "c1"}, {TopK: 50, Filter: map[string]string{"k": "1"}}, {TopK: 50, Threshold: 0.5}} {
			got, err := e.s.SearchWithACL(bg, q, req, o)
			what := fmt.Sprintf("SearchWithACL(%q, top=%d coll=%q filter=%v thr=%v)", req, o.TopK, o.Collection, o.Filter, o.Threshold)
			if err != nil {
				e.c.Failf("err", "%s: %v", what, err)
			}
			e.c.Count("queries", 1)
			for _, g := range got {
				if r, ok := e.m.rows[g.ID]; ok && !pred(r) {
					e.c.Failf("leak", "%s returned %s, visible only to %q (document %q)", what, g.ID, r.acl, e.m.docs[r.doc].acl)
				}
			}
			checkBest(e.c, what, got, e.m.eligible(q, refCos, o.Collection, o.Filter, o.Threshold, pred), o.TopK, e.m.rows)
		}
	}
}

// opDumpLoad moves all rows through an export into a fresh store; access lists
// must survive the trip.
func opDumpLoad(f core.DumpFormat) op {
	return op{"DUMPLOAD(" + string(f) + ")", func(e *env) {
		file := filepath.Join(e.c.Dir(), "dump")
		opts := core.DefaultDumpOptions()
		opts.Format = f
		if _, err := e.s.DumpToFile(bg, file, opts); err != nil {
			e.c.Failf("dump", "DumpToFile: %v", err)
		}
		if err := e.s.Clear(bg); err != nil {
			e.c.Failf("clear", "Clear: %v", err)
		}
		lo := core.DefaultLoadOptions()
		lo.Format = f
		if _, err := e.s.LoadFromFile(bg, file, lo); err != nil {
			e.c.Failf("load", "LoadFromFile: %v", err)
		}
		os.Remove(file)
	}}
}

func init() {
	vk.Register(&vk.Check{ID: "C07", Rule: "every pair of rows over 12 own access lists and 5 document access lists, and every sequence of up to 3/4 operations that change lists (upsert, batch, document update and deletion, move, export and import, reopen); after each, all principal sets of the grid times 5 search options are compared with the access rule",
		Run: func(w *vk.W) {
			own := [][]string{nil, {"u1"}, {"u2"}, {"u1", "u2"}, {"u10"}, {"user:u1"}, {"x", "u2"}, {`u"3`, "u1"}, {"名"}, {"%"}, {"1", "true"}, {"u1,u2"}, {" u1"}}
			docs := []struct {
				id  string
				acl []string
			}{{"", nil}, {"pub", nil}, {"d1", []string{"u1"}}, {"d2", []string{"u2"}}, {"d12", []string{"u2", "u1"}}}
			mkRow := func(id string, o, d int, vec []float32) row {
				r := row{id: id, vec: vec, content: id, acl: own[o], doc: docs[d].id, meta: map[string]string{"k": fmt.Sprint(1 + o%2)}}
				if (o+d)%3 == 0 {
					r.coll = "c1"
				}
				return r
			}
			setup := func(c *vk.C, ct cfgT) *env {
				e := newEnv(c, ct)
				opCreateColl("c1", 2).do(e)
				for _, d := range docs[1:] {
					opCreateDoc(docRow{id: d.id, title: "T", version: 1, acl: d.acl}).do(e)
				}
				return e
			}
			hn := func(c *core.Config) { c.HNSW.Enabled = true }
			n := len(own) * len(docs)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if !w.Thorough() && j%len(own) > 4 && i%len(own) > 4 {
						continue
					}
					i, j := i, j
					w.Case(fmt.Sprintf("pair|%d,%d", i, j), func(c *vk.C) {
						e := setup(c, cfgT{"plain", 2, nil})
						opUpsert("", mkRow("a", i%len(own), i/len(own), sv["p"])).do(e)
						opBatch("", row{id: "z", vec: sv["r"], content: "z"}, mkRow("b", j%len(own), j/len(own), sv["q"])).do(e)
						c.State(e.m.String())
						c.Trans(2)
						e.observeACL()
						e.observeRows([]string{"a", "b", "z"})
					})
				}
			}
			// a caller with many principals sees no less than one with few
			for i := 0; i < n; i++ {
				i := i
				w.Case(fmt.Sprintf("long|%d", i), func(c *vk.C) {
					e := setup(c, cfgT{"plain", 2, nil})
					opUpsert("", mkRow("a", i%len(own), i/len(own), sv["p"])).do(e)
					l := mkRow("b", 0, i/len(own), sv["q"])
					l.acl = append(manyNames(40)[20:], own[i%len(own)]...)
					opUpsert("", l).do(e)
					opBatch("", row{id: "z", vec: sv["r"], content: "z"}).do(e)
					c.Trans(3)
					e.observeACLs(longRequests)
				})
			}
			alpha := []op{}
			for _, o := range []int{0, 1, 2, 3} {
				for _, d := range []int{0, 2} {
					r := mkRow("a", o, d, sv["p"])
					r.coll = ""
					alpha = append(alpha, opUpsert(fmt.Sprintf("Ua(%v,%s)", own[o], docs[d].id), r))
				}
			}
			alpha = append(alpha,
				opBatch("B(a:u2,b:-)", row{id: "a", vec: sv["q"], content: "x", acl: own[2]}, row{id: "b", vec: sv["r"], content: "y", doc: "d1"}),
				opBatch("B(a:-,b:u1)", row{id: "a", vec: sv["q"], content: "x"}, row{id: "b", vec: sv["r"], content: "y", acl: own[1]}),
				opUpdateDoc(docRow{id: "d1", title: "T", version: 2, acl: []string{"u2"}}),
				op{"UD(d1:public)", func(e *env) { opUpdateDoc(docRow{id: "d1", title: "T", version: 3}).do(e) }},
				opDropDoc("d1"),
				opDumpLoad(core.DumpFormatJSON),
				opDumpLoad(core.DumpFormatJSONL),
				opReopen,
			)
			depth := w.Pick(3, 4)
			for _, ct := range []cfgT{{"plain", 2, nil}, {"hnsw", 2, hn}} {
				ct := ct
				d := depth
				if ct.name == "hnsw" {
					d = depth - 1
				}
				enumSeqs(w, ct.name, alpha, d, func(c *vk.C, seq []op) {
					c.Defer(coins(1))
					e := setup(c, ct)
					for _, o := range seq {
						c.Logf("%s", o.name)
						o.do(e)
						c.Trans(1)
					}
					c.State(e.m.String())
					e.observeACL()
					e.observeRows([]string{"a", "b"})
				})
			}
		}})
}
