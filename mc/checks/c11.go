package checks

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// second opens another store in the same case, sharing nothing with e.
func (e *env) second(name string, ct cfgT) *env {
	n := &env{c: e.c, path: filepath.Join(e.c.Dir(), name), m: newModel(ct.dim)}
	n.cfg = baseCfg(n.path, ct.dim)
	if ct.mutate != nil {
		ct.mutate(&n.cfg)
	}
	n.open()
	e.c.Defer(func() { n.s.Close() })
	return n
}

func (e *env) dump(f core.DumpFormat, filter *core.MetadataFilter, vectors bool) []byte {
	var b bytes.Buffer
	o := core.DefaultDumpOptions()
	o.Format, o.Filter, o.IncludeVectors = f, filter, vectors
	st, err := e.s.Dump(bg, &b, o)
	if err != nil {
		e.c.Failf("dump", "Dump(%s): %v", f, err)
	}
	n := 0
	for _, r := range e.m.rows {
		if filter == nil || r.meta["type"] == "x" {
			n++
		}
	}
	if st.TotalEmbeddings != n {
		e.c.Failf("dumpstats", "Dump(%s) reports %d embeddings, want %d", f, st.TotalEmbeddings, n)
	}
	return b.Bytes()
}

// load imports data holding the given rows and moves the model along.
func (e *env) load(f core.DumpFormat, data []byte, rows []row, skip bool, what string) {
	lo := core.LoadOptions{Format: f, SkipExisting: skip, Replace: !skip, Upsert: true}
	st, err := e.s.Load(bg, bytes.NewReader(data), lo)
	if err != nil {
		e.c.Failf("load", "%s: Load: %v", what, err)
	}
	ok, skipped, failed := 0, 0, 0
	for _, r := range rows {
		if _, exists := e.m.rows[r.id]; exists && skip {
			skipped++
		} else if e.m.valid(r) {
			ok++
			e.m.put(r)
		} else {
			failed++
		}
	}
	if st.TotalEmbeddings != ok || st.SkippedCount != skipped || st.FailedCount != failed {
		e.c.Failf("loadstats", "%s: Load reports %+v, want loaded %d skipped %d failed %d", what, *st, ok, skipped, failed)
	}
	e.c.Count("loads", 1)
}

// largeExport carries n rows through every format, and back over an importing
// store that already has some of them, under every combination of the options.
func largeExport(c *vk.C, n int) {
	src := newEnv(c, cfgT{"plain", 2, nil})
	var all, odd []row
	for i := 0; i < n; i++ {
		r := row{id: fmt.Sprintf("r%03d", i), vec: []float32{float32(i), 1}, content: fmt.Sprintf("text %d", i), meta: map[string]string{"type": []string{"y", "x"}[i%2]}}
		all = append(all, r)
		if i%2 == 1 {
			odd = append(odd, r)
		}
	}
	opBatch("", all...).do(src)
	var ids []string
	for _, r := range all {
		ids = append(ids, r.id)
	}
	fl := core.NewMetadataFilter().Equal("type", "x")
	recs, err := csv.NewReader(bytes.NewReader(src.dump(core.DumpFormatCSV, nil, true))).ReadAll()
	if err != nil || len(recs) != 1+n {
		c.Failf("csv", "CSV export: %d records (%v), want %d", len(recs), err, 1+n)
	}
	x := 0
	for _, f := range []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL} {
		for _, part := range []bool{false, true} {
			rows, flt := all, (*core.MetadataFilter)(nil)
			if part {
				rows, flt = odd, fl
			}
			data := src.dump(f, flt, true)
			if f == core.DumpFormatJSON {
				var h struct {
					Metadata core.ExportMetadata `json:"metadata"`
				}
				if err := json.Unmarshal(data, &h); err != nil || h.Metadata.Count != len(rows) || h.Metadata.Dimensions != 2 {
					c.Failf("header", "the export of %d rows says %+v (%v)", len(rows), h.Metadata, err)
				}
			}
			for opt := 0; opt < 8; opt++ {
				x++
				t := src.second(fmt.Sprintf("l%d.db", x), cfgT{"plain", 2, nil})
				for i := 0; i < n; i += 3 {
					opUpsert("", row{id: all[i].id, vec: sv["u"], content: "old"}).do(t)
				}
				lo := core.LoadOptions{Format: f, SkipExisting: opt&1 == 1, Replace: opt&2 == 2, Upsert: opt&4 == 4, BatchSize: opt * 7}
				st, err := t.s.Load(bg, bytes.NewReader(data), lo)
				if err != nil {
					c.Failf("load", "Load(%+v): %v", lo, err)
				}
				skipped := 0
				for _, r := range rows {
					if _, ok := t.m.rows[r.id]; ok && lo.SkipExisting {
						skipped++
					} else {
						t.m.put(r)
					}
				}
				if st.TotalEmbeddings != len(rows)-skipped || st.SkippedCount != skipped || st.FailedCount != 0 {
					c.Failf("loadstats", "Load(%+v) of %d rows reports %+v, want %d skipped", lo, len(rows), *st, skipped)
				}
				t.observeRows(ids)
				t.s.Close()
				c.Trans(1)
				c.State(fmt.Sprint(n, f, part, opt))
			}
		}
	}
}

var c11ids = []string{"a", "b", "c", "d", "x\"1"}

func init() {
	vk.Register(&vk.Check{ID: "C11", Rule: "every sequence of up to 3/4 writes on the source, exported as JSON, JSONL and CSV (all, filtered, without vectors) and backed up; imported into an empty, a partly populated, and a poorer store with and without replacement; exports of 101 to 257 rows under every combination of the import options; every truncation point of an export; index export and import around every later write; values over a grid",
		Run: func(w *vk.W) {
			grid := []row{
				{id: "a", vec: []float32{0.1, -3.4e38}, content: "plain", meta: map[string]string{"type": "x"}},
				{id: "b", coll: "c_1", vec: []float32{1e-45, 1.17549435e-38}, content: "c1 <&> \u2028 \"q\" \\ 名 \x01\t\n", meta: map[string]string{"type": "x", "k.\"1": "v\n"}, acl: []string{"u1", "名<"}},
				{id: "c", doc: "d_1", vec: []float32{0.33333334, float32(math.Copysign(0, -1))}, content: "", meta: nil},
				{id: "d", coll: "c_1", doc: "d_1", vec: []float32{16777217, 1.0000001}, content: "a,b\r\n\"c\"", meta: map[string]string{"type": "y", "": "e"}, acl: []string{"u2"}},
				{id: "x\"1", vec: []float32{3, 4}, content: strings.Repeat("long ", 300), meta: map[string]string{"type": "x"}},
			}
			a2 := row{id: "a", coll: "c_1", vec: sv["q"], content: "a2", acl: []string{"u1"}, doc: "d_1", meta: map[string]string{"type": "x"}}
			ops := []op{}
			for _, r := range grid {
				ops = append(ops, opUpsert("U("+r.id+")", r))
			}
			ops = append(ops, opUpsert("U(a2)", a2), opBatch("B(all)", grid...), opDelete("a"), opDropDoc("d_1"))
			prep := func(e *env, full bool) {
				if full {
					opCreateColl("c_1", 2).do(e)
					opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
				}
			}
			sorted := func(m *model, pred func(row) bool) []row {
				var l []row
				for _, id := range m.ids() {
					if pred == nil || pred(m.rows[id]) {
						l = append(l, m.rows[id])
					}
				}
				return l
			}
			enumSeqs(w, "roundtrip", ops, w.Pick(2, 3), func(c *vk.C, seq []op) {
				src := newEnv(c, cfgT{"plain", 2, nil})
				prep(src, true)
				for _, o := range seq {
					o.do(src)
					c.Trans(1)
				}
				c.State(src.m.String())
				fresh := cfgT{"plain", 2, nil}
				n := 0
				for _, f := range []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL} {
					data := src.dump(f, nil, true)
					all := sorted(src.m, nil)
					for _, skip := range []bool{true, false} {
						for _, kind := range []string{"empty", "has-a", "poor"} {
							n++
							t := src.second(fmt.Sprintf("t%d.db", n), fresh)
							prep(t, kind != "poor")
							if kind == "has-a" {
								opUpsert("", row{id: "a", vec: sv["u"], content: "old"}).do(t)
							}
							what := fmt.Sprintf("%s into %s store, skip=%v", f, kind, skip)
							t.load(f, data, all, skip, what)
							t.observeRows(c11ids)
							t.s.Close()
						}
						src.load(f, data, all, skip, "reload into the source")
						src.observeRows(c11ids)
					}
					fl := core.NewMetadataFilter().Equal("type", "x")
					n++
					t := src.second(fmt.Sprintf("t%d.db", n), fresh)
					prep(t, true)
					t.load(f, src.dump(f, fl, true), sorted(src.m, func(r row) bool { return r.meta["type"] == "x" }), true, "filtered export")
					t.observeRows(c11ids)
					t.s.Close()
					if bytes.Contains(src.dump(f, nil, false), []byte(`"vector":[`)) {
						c.Failf("vectors", "Dump(%s) without vectors contains vectors", f)
					}
				}
				// CSV, read back with a CSV reader
				recs, err := csv.NewReader(bytes.NewReader(src.dump(core.DumpFormatCSV, nil, true))).ReadAll()
				if err != nil || len(recs) != 1+len(src.m.rows) {
					c.Failf("csv", "CSV export: %d records (%v), want %d", len(recs), err, 1+len(src.m.rows))
				}
				col := map[string]int{}
				for i, h := range recs[0] {
					col[h] = i
				}
				for _, rec := range recs[1:] {
					r, ok := src.m.rows[rec[col["id"]]]
					var vec []float32
					json.Unmarshal([]byte(rec[col["vector"]]), &vec)
					var md map[string]string
					if rec[col["metadata"]] != "" {
						if err := json.Unmarshal([]byte(rec[col["metadata"]]), &md); err != nil {
							c.Failf("csv", "CSV metadata %q: %v", rec[col["metadata"]], err)
						}
					}
					// encoding/csv reads \r\n inside quotes as \n
					if !ok || strings.ReplaceAll(r.content, "\r\n", "\n") != rec[col["content"]] || r.doc != rec[col["doc_id"]] || !sameVec(vec, r.vec) || !sameMeta(md, r.meta) {
						c.Failf("csv", "CSV record %q, want %+v", rec, r)
					}
				}
				// backup
				bk := filepath.Join(c.Dir(), "it's a backup.db")
				if err := src.s.Backup(bg, bk); err != nil {
					c.Failf("backup", "Backup: %v", err)
				}
				b := &env{c: c, path: bk, m: src.m, cfg: src.cfg}
				b.cfg.Path = bk
				b.open()
				b.observeRows(c11ids)
				b.s.Close()
				src.observeRows(c11ids)
				os.Remove(bk)
			})
			for _, n := range []int{101, 130, 257} {
				n := n
				w.Case(fmt.Sprintf("large|%d", n), func(c *vk.C) { largeExport(c, n) })
			}
			// every truncation point
			w.Case("truncate", func(c *vk.C) {
				src := newEnv(c, cfgT{"plain", 2, nil})
				prep(src, true)
				for _, r := range grid[:4] {
					opUpsert("", r).do(src)
				}
				for _, f := range []core.DumpFormat{core.DumpFormatJSON, core.DumpFormatJSONL} {
					data := src.dump(f, nil, true)
					t := src.second("trunc"+string(f)+".db", cfgT{"plain", 2, nil})
					prep(t, true)
					for n := 0; n < len(data); n++ {
						if err := t.s.Clear(bg); err != nil {
							c.Failf("clear", "%v", err)
						}
						t.m.rows = map[string]row{}
						_, err := t.s.Load(bg, bytes.NewReader(data[:n]), core.LoadOptions{Format: f, Upsert: true})
						complete := false
						if f == core.DumpFormatJSON {
							complete = json.Valid(data[:n])
							if complete {
								for id, r := range src.m.rows {
									t.m.rows[id] = r
								}
							}
						} else {
							lines := strings.Split(string(data[:n]), "\n")
							complete = true
							for _, l := range lines {
								if l == "" {
									continue
								}
								var x core.Embedding
								if json.Unmarshal([]byte(l), &x) != nil {
									complete = false
									continue
								}
								t.m.rows[x.ID] = src.m.rows[x.ID]
							}
						}
						if complete != (err == nil) {
							c.Failf("trunc", "Load of %s export cut at byte %d of %d: error %v, complete=%v", f, n, len(data), err, complete)
						}
						t.observeRows(c11ids)
						c.Count("truncations", 1)
					}
				}
			})
			// index files
			hn := func(c *core.Config) { c.HNSW.Enabled = true }
			iv := func(c *core.Config) {
				c.IndexType = core.IndexTypeIVF
				c.IVF.Enabled = true
				c.IVF.NCentroids = 2
				c.IVF.NProbe = 2
			}
			iops := []op{
				opUpsert("U(a=p)", row{id: "a", vec: sv["p"], content: "a"}), opUpsert("U(a=q)", row{id: "a", vec: sv["q"], content: "a"}),
				opUpsert("U(b=r)", row{id: "b", vec: sv["r"], content: "b"}), opDelete("a"), opClear,
				{"EXPORT", func(e *env) {
					if err := e.s.ExportIndex(bg, e.path+".idx"); err != nil {
						e.c.Failf("export", "ExportIndex: %v", err)
					}
				}},
				{"IMPORT", func(e *env) {
					_, serr := os.Stat(e.path + ".idx")
					err := e.s.ImportIndex(bg, e.path+".idx")
					e.wantErr("ImportIndex", err, serr != nil)
				}},
				{"IMPORTBAD", func(e *env) {
					os.WriteFile(e.path+".bad", []byte("not an index"), 0o644)
					e.wantErr("ImportIndex(garbage)", e.s.ImportIndex(bg, e.path+".bad"), true)
				}},
			}
			for _, ct := range []cfgT{{"hnsw", 2, hn}, {"ivf", 2, iv}} {
				ct := ct
				enumSeqs(w, "index-"+ct.name, iops, w.Pick(3, 4), func(c *vk.C, seq []op) {
					c.Defer(coins(1))
					e := newEnv(c, ct)
					opBatch("", row{id: "x", vec: sv["s"], content: "x"}, row{id: "y", vec: sv["t"], content: "y"}, row{id: "z", vec: sv["u"], content: "z"}).do(e)
					if ct.name == "ivf" {
						trainIVF(2).do(e)
					}
					for _, o := range seq {
						c.Logf("%s", o.name)
						o.do(e)
						c.Trans(1)
					}
					c.State(e.m.String())
					for _, q := range [][]float32{{0.7, 0.2}, {-1, 0.3}} {
						for _, k := range []int{1, 2, 10} {
							got, err := e.s.Search(bg, q, core.SearchOptions{TopK: k})
							if err != nil {
								c.Failf("search", "Search: %v", err)
							}
							checkBest(c, fmt.Sprintf("Search(%v,%d)", q, k), got, e.m.eligible(q, refCos, "", nil, 0, nil), k, e.m.rows)
						}
					}
				})
			}
		}})
}
