package checks

import (
	"context"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsql"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

// ---- crash images ----

// image is what a kill at one moment leaves on disk.
type image struct {
	db, wal []byte
	acked   int    // operations acknowledged by then
	at      string // the storage event that was about to happen
}

type crashRec struct {
	path   string
	acked  int
	images []image
	seen   map[uint64]bool
	events int
}

func (r *crashRec) snap(at string) {
	db, err := os.ReadFile(r.path)
	if err != nil {
		return
	}
	wal, _ := os.ReadFile(r.path + "-wal")
	h := fnv.New64a()
	h.Write(db)
	h.Write([]byte{0})
	h.Write(wal)
	h.Write([]byte{0, byte(r.acked)})
	if r.seen[h.Sum64()] {
		return
	}
	r.seen[h.Sum64()] = true
	r.images = append(r.images, image{db, wal, r.acked, at})
}

// record installs the recorder: before every storage event the files are
// copied if they changed.
func record(c *vk.C, path string) *crashRec {
	r := &crashRec{path: path, seen: map[uint64]bool{}}
	vsql.SetHook(func(ev vsql.Event) error {
		if ev.Kind == "next" {
			return nil
		}
		r.events++
		q := ev.SQL
		if len(q) > 40 {
			q = q[:40]
		}
		r.snap(ev.Kind + " " + strings.Join(strings.Fields(q), " "))
		return nil
	})
	c.Defer(func() { vsql.SetHook(nil) })
	return r
}

func (im image) restore(c *vk.C, name string) string {
	p := filepath.Join(c.Dir(), name)
	os.WriteFile(p, im.db, 0o644)
	if im.wal != nil {
		os.WriteFile(p+"-wal", im.wal, 0o644)
	}
	return p
}

// torn lists the prefixes of the image's log a power cut can leave: every frame
// boundary and a cut inside every frame.
func (im image) torn() []image {
	if len(im.wal) < 32 {
		return nil
	}
	ps := int(binary.BigEndian.Uint32(im.wal[8:12]))
	if ps == 1 {
		ps = 65536
	}
	fr := ps + 24
	var out []image
	for off := 32; off <= len(im.wal); off += fr {
		out = append(out, image{im.db, im.wal[:off], im.acked, fmt.Sprintf("log cut at frame %d", (off-32)/fr)})
		if off+fr <= len(im.wal) {
			out = append(out, image{im.db, im.wal[:off+24+ps/2], im.acked, fmt.Sprintf("log cut inside frame %d", (off-32)/fr)})
			bad := append([]byte(nil), im.wal[:off+fr]...)
			bad[off+24+ps/3] ^= 0x55
			out = append(out, image{im.db, bad, im.acked, fmt.Sprintf("log corrupt in its last frame %d", (off-32)/fr)})
		}
	}
	return out
}

// ---- C03 ----

func durOps() []op {
	ops := searchOps()
	ops = append(ops,
		opCreateColl("C_1", 2),
		opCreateDoc(docRow{id: "d9", title: "T9", version: 1, acl: []string{"u"}}),
		opUpdateDoc(docRow{id: "d_1", title: "T1b", version: 2, content: "body"}),
		opReopen,
	)
	return ops
}

// storageMode checks the settings SQLite's atomic commit depends on.
func storageMode(e *env) {
	db := e.s.GetDB()
	conns := []interface{ Close() error }{}
	for i := 0; i < 3; i++ {
		cn, err := db.Conn(context.Background())
		if err != nil {
			break
		}
		conns = append(conns, cn)
		var jm string
		var fk, sy int
		if cn.QueryRowContext(bg, "PRAGMA journal_mode").Scan(&jm) == nil && (jm == "off" || jm == "memory") {
			e.c.Failf("unsafe-journal", "connection %d uses journal_mode=%s: a crash during a commit tears it", i, jm)
		}
		if cn.QueryRowContext(bg, "PRAGMA foreign_keys").Scan(&fk) == nil && fk != 1 {
			e.c.Failf("no-fk", "connection %d does not enforce foreign keys", i)
		}
		if cn.QueryRowContext(bg, "PRAGMA synchronous").Scan(&sy) == nil && sy == 0 {
			e.c.Failf("unsafe-sync", "connection %d uses synchronous=OFF", i)
		}
	}
	for _, x := range conns {
		x.Close()
	}
}

var durUniverse = []string{"a", "b", "c", "d", "x", "y", "z"}

func (e *env) matchState(allowed []*model) (int, string) {
	why := ""
	for i, m := range allowed {
		e.m = m.clone()
		sig, msg := e.c.Try(func() { e.observeRows(durUniverse) })
		if sig == "" {
			return i, ""
		}
		why += fmt.Sprintf(" [state %d: %s]", i, msg)
	}
	return -1, why
}

func crashVerify(e0 *env, im image, states []*model, lo, hi int, what string, sim func(a, b []float32) float64, record2 bool) int {
	c := e0.c
	p := im.restore(c, "t.db")
	e := &env{c: c, path: p, cfg: e0.cfg}
	e.cfg.Path = p
	var rec *crashRec
	if record2 {
		rec = recordOpen(p)
	}
	e.open()
	vsql.SetHook(nil)
	closed := false
	defer func() {
		if !closed {
			e.s.Close()
		}
	}()
	if lo < 0 {
		lo = 0
	}
	if hi >= len(states) {
		hi = len(states) - 1
	}
	i, why := e.matchState(states[lo : hi+1])
	if i < 0 {
		c.Failf("crash-state", "%s: reopened state is none of the states %d..%d of the history:%s", what, lo, hi, why)
	}
	c.Count("crash_images", 1)
	e.observeSearch(queries[:2], sim, []int{1, 3})
	if rec != nil { // a second crash while recovering
		e.s.Close()
		closed = true
		for _, im2 := range rec.images {
			crashVerify(e0, im2, states, lo, hi, what+" then crash while reopening at "+im2.at, sim, false)
		}
	}
	return lo + i
}

func recordOpen(path string) *crashRec {
	r := &crashRec{path: path, seen: map[uint64]bool{}}
	vsql.SetHook(func(ev vsql.Event) error {
		if ev.Kind != "next" {
			r.events++
			r.snap(ev.Kind)
		}
		return nil
	})
	return r
}

func init() {
	vk.Register(&vk.Check{ID: "C03", Rule: "every sequence of writes and restarts up to the depth; the files are captured before every storage event and after the last, plus every prefix of the write-ahead log; each image is reopened and compared with the model states before and after the interrupted operation, rows and searches",
		Assumptions: []string{"SQLite's own commit is atomic under WAL; crash points inside one commit are represented by cutting or corrupting the log at and inside every frame"},
		Run: func(w *vk.W) {
			hn := func(auto bool) func(*core.Config) {
				return func(c *core.Config) {
					c.HNSW.Enabled = true
					c.AutoSave.Enabled = auto
					c.AutoSave.Interval = 3600e9
					c.AutoSave.SaveOnClose = auto
				}
			}
			iv := func(c *core.Config) {
				c.IndexType = core.IndexTypeIVF
				c.IVF.Enabled = true
				c.IVF.NCentroids = 2
				c.IVF.NProbe = 2
				c.AutoSave.Enabled = true
				c.AutoSave.Interval = 3600e9
				c.AutoSave.SaveOnClose = true
			}
			type conf struct {
				ct    cfgT
				depth int
				ivf   bool
			}
			d := w.Pick(2, 3)
			confs := []conf{{cfgT{"plain", 2, nil}, d, false}, {cfgT{"hnsw", 2, hn(false)}, d, false}, {cfgT{"hnsw-save", 2, hn(true)}, d, false}, {cfgT{"ivf-save", 2, iv}, d, true}}
			for _, cf := range confs {
				ops := durOps()
				if cf.ivf {
					ops = append(ops, trainIVF(2))
				}
				enumSeqs(w, "crash/"+cf.ct.name, ops, cf.depth, func(c *vk.C, seq []op) {
					c.Defer(coins(1))
					e := newEnv(c, cf.ct)
					opCreateColl("c_1", 2).do(e)
					opCreateDoc(docRow{id: "d_1", title: "T", version: 1}).do(e)
					opBatch("seed", row{id: "x", vec: sv["p"], content: "x", meta: map[string]string{"type": "x"}}, row{id: "y", vec: []float32{0.8, 0.45}, content: "y"}, row{id: "z", vec: []float32{-0.9, 0.35}, content: "z", doc: "d_1"}).do(e)
					if cf.ivf {
						trainIVF(2).do(e)
					}
					e.reopen() // the log starts empty
					storageMode(e)
					rec := record(c, e.path)
					states := []*model{e.m.clone()}
					for i, o := range seq {
						c.Logf("%d %s", i, o.name)
						o.do(e)
						rec.acked = i + 1
						rec.snap("after " + o.name)
						states = append(states, e.m.clone())
						c.Trans(1)
						c.State(cf.ct.name + e.m.String())
					}
					vsql.SetHook(nil)
					e.s.Close()
					e.s = nil
					c.Count("storage_events", rec.events)
					for _, im := range rec.images {
						if im.acked < len(seq)-1 {
							continue // a prefix of the history, covered by the shorter sequence
						}
						crashVerify(e, im, states, im.acked, im.acked+1, fmt.Sprintf("crash at %q with %d operations acknowledged", im.at, im.acked), refCos, len(seq) == 1 || w.Thorough())
					}
					if len(rec.images) > 0 && (len(seq) == 1 || w.Thorough()) {
						last := rec.images[len(rec.images)-1]
						prev := 0
						for _, im := range last.torn() {
							k := crashVerify(e, im, states, 0, len(seq), im.at, refCos, false)
							if strings.Contains(im.at, "at frame") {
								if k < prev && states[k].String() != states[prev].String() {
									c.Failf("crash-order", "%s recovers state %d although a shorter log recovers state %d", im.at, k, prev)
								}
								prev = k
							}
							c.Count("torn_logs", 1)
						}
					}
				})
			}
		}})
}
