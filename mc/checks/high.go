package checks

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"path/filepath"
	"sort"
	"strings"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vsync"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	"github.com/liliang-cn/cortexdb/v2/pkg/cortexdb"
)

// wordEmbedder maps a text to the counts of its words in a fixed vocabulary
// (unknown words share the last component). fail makes it report an error from
// the given call on.
type wordEmbedder struct {
	vocab []string
	calls int
	fail  int // 0: never; n: the n-th call and later ones fail
	once  bool
}

func (w *wordEmbedder) vec(text string) []float32 {
	v := make([]float32, len(w.vocab)+1)
	for _, x := range strings.Fields(strings.ToLower(text)) {
		x = strings.Trim(x, ".,?!")
		k := len(w.vocab)
		for i, y := range w.vocab {
			if x == y {
				k = i
			}
		}
		if k == len(w.vocab) {
			h := fnv.New32a()
			h.Write([]byte(x))
			v[k] += 0.25 + float32(h.Sum32()%4)/16
		} else {
			v[k]++
		}
	}
	return v
}

var errEmbed = errors.New("embedder is down")

func (w *wordEmbedder) tick() error {
	w.calls++
	if w.fail > 0 && (w.calls == w.fail || !w.once && w.calls > w.fail) {
		return errEmbed
	}
	return nil
}

func (w *wordEmbedder) Embed(_ context.Context, text string) ([]float32, error) {
	if err := w.tick(); err != nil {
		return nil, err
	}
	return w.vec(text), nil
}

func (w *wordEmbedder) EmbedBatch(_ context.Context, texts []string) ([][]float32, error) {
	if err := w.tick(); err != nil {
		return nil, err
	}
	var out [][]float32
	for _, t := range texts {
		out = append(out, w.vec(t))
	}
	return out, nil
}

func (w *wordEmbedder) Dim() int { return len(w.vocab) + 1 }

// openCortex opens a cortexdb database. emb may be nil.
func openCortex(c *vk.C, path string, emb *wordEmbedder, idx core.IndexType) *cortexdb.DB {
	cfg := cortexdb.DefaultConfig(path)
	cfg.IndexType = idx
	var opts []cortexdb.Option
	if emb != nil {
		cfg.Dimensions = emb.Dim()
		opts = append(opts, cortexdb.WithEmbedder(emb))
	}
	db, err := cortexdb.Open(cfg, opts...)
	if err != nil {
		c.Failf("open", "Open: %v", err)
	}
	return db
}

func newCortexPath(c *vk.C) string { return filepath.Join(c.Dir(), "c.db") }

// seqsOf enumerates every sequence of exactly depth operations.
func seqsOf(w *vk.W, label string, names []string, depth int, f func(c *vk.C, seq []int)) {
	n := len(names)
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	for k := 0; k < total; k++ {
		if w.Stop() {
			return
		}
		if !w.Mine() {
			w.Skip(1)
			continue
		}
		seq := make([]int, depth)
		l := make([]string, depth)
		x := k
		for i := depth - 1; i >= 0; i-- {
			seq[i] = x % n
			l[i] = names[seq[i]]
			x /= n
		}
		w.Case(label+"|"+strings.Join(l, ","), func(c *vk.C) { f(c, seq) })
	}
}

// instance is one system under concurrent test: its threads, each a list of
// operations that return a description of their outcome, and a description of
// the final state.
type instance struct {
	threads [][]func() string
	snap    func() string
	done    func()
}

// serializable explores every schedule of at most bound preemptions and
// requires that outcomes and final state equal those of some sequential
// execution of the same operations on the same code.
func serializable(c *vk.C, bound int, names []string, mk func() instance) {
	ref := map[string]string{}
	// all interleavings of whole operations
	in := mk()
	sizes := make([]int, len(in.threads))
	for i, t := range in.threads {
		sizes[i] = len(t)
	}
	in.done()
	var rec func(pos []int, order []int)
	rec = func(pos []int, order []int) {
		end := true
		for i := range sizes {
			if pos[i] < sizes[i] {
				end = false
				p := append([]int(nil), pos...)
				p[i]++
				rec(p, append(append([]int(nil), order...), i))
			}
		}
		if !end {
			return
		}
		in := mk()
		outs := make([][]string, len(in.threads))
		for _, i := range order {
			outs[i] = append(outs[i], in.threads[i][len(outs[i])]())
		}
		key := fmt.Sprint(outs) + " => " + in.snap()
		ref[key] = fmt.Sprint(order)
		in.done()
	}
	rec(make([]int, len(sizes)), nil)
	var cur instance
	var outs [][]string
	st := vsync.Explore(bound, false, 6000, names, func() []func() {
		cur = mk()
		outs = make([][]string, len(cur.threads))
		var bodies []func()
		for i, t := range cur.threads {
			i, t := i, t
			bodies = append(bodies, func() {
				for _, f := range t {
					outs[i] = append(outs[i], f())
				}
			})
		}
		return bodies
	}, func(s *vsync.Sched, sched []int) bool {
		if s.Deadlock || s.Stuck {
			c.Failf("deadlock", "deadlock of %v with schedule %v: %v", names, sched, s.Blocked)
		}
		if len(s.Panics) > 0 {
			c.Failf("panic", "panic of %v with schedule %v: %s", names, sched, s.Panics[0])
		}
		if s.TooLong {
			c.Failf("livelock", "no end after %d steps, schedule %v", s.MaxSteps, sched)
		}
		key := fmt.Sprint(outs) + " => " + cur.snap()
		cur.done()
		if _, ok := ref[key]; !ok {
			var l []string
			for k, o := range ref {
				l = append(l, "order "+o+": "+k)
			}
			sort.Strings(l)
			c.Failf("serial", "%v with schedule %v gives\n  %s\nwhich no sequential order gives:\n  %s", names, sched, key, strings.Join(l, "\n  "))
		}
		c.Outcome(fmt.Sprint(names, outs))
		return true
	}, func() bool { return !c.W.Stop() })
	c.Count("schedules", st.Schedules)
	c.Trans(st.Steps)
	if !st.Complete {
		c.W.Cut()
	}
}

func setOf(l []string) string {
	s := append([]string(nil), l...)
	sort.Strings(s)
	return strings.Join(s, ",")
}
