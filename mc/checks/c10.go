package checks

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vtime"
	"github.com/liliang-cn/cortexdb/v2/pkg/core"
)

type chatModel struct {
	sess map[string]core.Session
	msgs []core.Message // in order of arrival
}

type chatEnv struct {
	*env
	cm *chatModel
}

type chatOp struct {
	name string
	do   func(e *chatEnv)
}

func opSession(s core.Session) chatOp {
	return chatOp{"S(" + s.ID + "," + s.UserID + ")", func(e *chatEnv) {
		_, dup := e.cm.sess[s.ID]
		cp := s
		e.wantErr("CreateSession("+s.ID+")", e.s.CreateSession(bg, &cp), dup)
		if !dup {
			e.cm.sess[s.ID] = s
		}
	}}
}

func opMessage(m core.Message) chatOp {
	return chatOp{"M(" + m.ID + "," + m.SessionID + ")", func(e *chatEnv) {
		_, ok := e.cm.sess[m.SessionID]
		for _, x := range e.cm.msgs {
			ok = ok && x.ID != m.ID
		}
		cp := m
		e.wantErr("AddMessage("+m.ID+")", e.s.AddMessage(bg, &cp), !ok)
		if ok {
			x := m
			x.CreatedAt = vtime.Now()
			e.cm.msgs = append(e.cm.msgs, x)
		}
	}}
}

func diffMsg(got *core.Message, want core.Message) string {
	switch {
	case got.ID != want.ID:
		return fmt.Sprintf("id %q, want %q", got.ID, want.ID)
	case got.SessionID != want.SessionID || got.Role != want.Role || got.Content != want.Content:
		return fmt.Sprintf("session/role/content %q/%q/%q, want %q/%q/%q", got.SessionID, got.Role, got.Content, want.SessionID, want.Role, want.Content)
	case !sameVec(got.Vector, want.Vector):
		return fmt.Sprintf("vector %v, want %v", got.Vector, want.Vector)
	case len(got.Metadata)+len(want.Metadata) > 0 && !reflect.DeepEqual(got.Metadata, want.Metadata):
		return fmt.Sprintf("metadata %v, want %v", got.Metadata, want.Metadata)
	case !got.CreatedAt.Equal(want.CreatedAt):
		return fmt.Sprintf("created %v, want %v", got.CreatedAt, want.CreatedAt)
	}
	return ""
}

func msgIDs(l []*core.Message) []string {
	out := []string{}
	for _, m := range l {
		out = append(out, m.ID)
	}
	return out
}

func (e *chatEnv) observe() {
	c := e.c
	byID := map[string]core.Message{}
	for _, m := range e.cm.msgs {
		byID[m.ID] = m
	}
	contents := func(what string, l []*core.Message) {
		for _, g := range l {
			w, ok := byID[g.ID]
			if !ok {
				c.Failf("ghost", "%s returned unknown message %q", what, g.ID)
			}
			if d := diffMsg(g, w); d != "" {
				c.Failf("content", "%s: %s: %s", what, g.ID, d)
			}
		}
	}
	for _, sid := range []string{"s_1", "S_1", "sx1", "sX"} {
		got, err := e.s.GetSession(bg, sid)
		want, ok := e.cm.sess[sid]
		if ok && (err != nil || got.ID != sid || got.UserID != want.UserID || (len(want.Metadata) > 0 && !reflect.DeepEqual(got.Metadata, want.Metadata))) {
			c.Failf("session", "GetSession(%s) = %+v, %v; want %+v", sid, got, err, want)
		}
		if !ok && !errors.Is(err, core.ErrNotFound) {
			c.Failf("session", "GetSession(%s) of a missing session: %+v, %v", sid, got, err)
		}
		var hist []string
		for _, m := range e.cm.msgs {
			if m.SessionID == sid {
				hist = append(hist, m.ID)
			}
		}
		for _, lim := range []int{0, 1, 2, 3, 50, -1} {
			l, err := e.s.GetSessionHistory(bg, sid, lim)
			if err != nil {
				c.Failf("err", "GetSessionHistory: %v", err)
			}
			w := hist
			if lim >= 0 && len(w) > lim {
				w = w[len(w)-lim:]
			}
			if !sameStrs(msgIDs(l), w) {
				c.Failf("history", "GetSessionHistory(%s, %d) = %v, want the last messages in order %v", sid, lim, msgIDs(l), w)
			}
			contents("GetSessionHistory", l)
		}
	}
	// ranked searches: any answer that is a top-k of the eligible messages
	ranked := func(what string, l []*core.Message, elig map[string]float64, lim int) {
		contents(what, l)
		last, low := math.Inf(1), math.Inf(1)
		seen := map[string]bool{}
		for _, g := range l {
			s, ok := elig[g.ID]
			if !ok || seen[g.ID] {
				c.Failf("foreign", "%s returned %v, eligible are %s", what, msgIDs(l), scoreStr(elig))
			}
			seen[g.ID] = true
			if s > last+eps {
				c.Failf("order", "%s returned %v out of order, scores %s", what, msgIDs(l), scoreStr(elig))
			}
			last = s
			low = math.Min(low, s)
		}
		if len(l) != min(len(elig), lim) {
			c.Failf("count", "%s returned %v, want %d of %s", what, msgIDs(l), min(len(elig), lim), scoreStr(elig))
		}
		for id, s := range elig {
			if !seen[id] && s > low+eps {
				c.Failf("missed", "%s left out %s: %v of %s", what, id, msgIDs(l), scoreStr(elig))
			}
		}
		c.Count("queries", 1)
	}
	for qi, q := range [][]float32{{0.9, 0.1}, {-0.2, 1}} {
		for _, lim := range []int{1, 2, 50} {
			for _, sid := range []string{"s_1", "S_1", "sx1", "sX", ""} {
				elig := map[string]float64{}
				for _, m := range e.cm.msgs {
					if m.SessionID == sid && len(m.Vector) > 0 {
						elig[m.ID] = refCos(q, m.Vector)
					}
				}
				l, err := e.s.SearchChatHistory(bg, q, sid, lim)
				if err != nil {
					c.Failf("err", "SearchChatHistory: %v", err)
				}
				ranked(fmt.Sprintf("SearchChatHistory(q%d,%s,%d)", qi, sid, lim), l, elig, lim)
			}
			for _, u := range []string{"u_1", "U_1", "u", ""} {
				for _, ex := range []string{"", "s_1", "S_1", "sX"} {
					elig := map[string]float64{}
					for _, m := range e.cm.msgs {
						if u != "" && e.cm.sess[m.SessionID].UserID == u && len(m.Vector) > 0 && (ex == "" || ex != m.SessionID) {
							elig[m.ID] = refCos(q, m.Vector)
						}
					}
					l, err := e.s.SearchMessagesByUser(bg, u, q, ex, lim)
					if err != nil {
						c.Failf("err", "SearchMessagesByUser: %v", err)
					}
					ranked(fmt.Sprintf("SearchMessagesByUser(%s,q%d,not %s,%d)", u, qi, ex, lim), l, elig, lim)
				}
			}
		}
	}
	for _, q := range []string{"red", "apple", "red pear", "zebra"} {
		for _, u := range []string{"u_1", "U_1", "u", ""} {
			for _, ex := range []string{"", "s_1", "sX"} {
				elig := map[string]float64{}
				for _, m := range e.cm.msgs {
					if u != "" && e.cm.sess[m.SessionID].UserID == u && (ex == "" || ex != m.SessionID) && hasWords(m.Content, q) {
						elig[m.ID] = 0
					}
				}
				for _, lim := range []int{1, 50} {
					l, err := e.s.KeywordSearchMessages(bg, q, u, ex, lim)
					if err != nil {
						c.Failf("err", "KeywordSearchMessages: %v", err)
					}
					ranked(fmt.Sprintf("KeywordSearchMessages(%q,%s,not %s,%d)", q, u, ex, lim), l, elig, lim)
				}
			}
		}
	}
}

func (m *chatModel) String() string {
	s := ""
	var ids []string
	for id, x := range m.sess {
		ids = append(ids, id+"/"+x.UserID)
	}
	sort.Strings(ids)
	for _, x := range m.msgs {
		s += fmt.Sprintf("%s@%s@%d;", x.ID, x.SessionID, x.CreatedAt.UnixNano())
	}
	return fmt.Sprint(ids, s)
}

func init() {
	vk.Register(&vk.Check{ID: "C10", Rule: "every sequence of up to 3/4 chat operations (sessions of two users, messages with and without vectors, duplicates, unknown sessions, clock ticks of 0 ns to seconds, reopening) from an empty and a prepared store; then session reads, histories at all limits, semantic and keyword message searches per user and session against a list model; and chats of up to 250/700 messages with strict rankings, histories and searches at many limits",
		Run: func(w *vk.W) {
			md := map[string]interface{}{"k": "v", "n": 1.5, "l": []interface{}{"a", true, nil}}
			s1 := opSession(core.Session{ID: "s_1", UserID: "u_1", Metadata: md})
			s2 := opSession(core.Session{ID: "S_1", UserID: "u_1"})
			s3 := opSession(core.Session{ID: "sx1", UserID: "U_1"})
			tick := func(n string, d time.Duration) chatOp {
				return chatOp{"T" + n, func(e *chatEnv) { vtime.Advance(d) }}
			}
			msgs := []chatOp{
				opMessage(core.Message{ID: "m1", SessionID: "s_1", Role: "user", Content: "red apple", Vector: sv["p"], Metadata: md}),
				opMessage(core.Message{ID: "m2", SessionID: "s_1", Role: "assistant", Content: "green pear", Vector: sv["q"]}),
				opMessage(core.Message{ID: "m3", SessionID: "S_1", Role: "user", Content: "red pear"}),
				opMessage(core.Message{ID: "m4", SessionID: "sx1", Role: "system", Content: "red apple it's \"quoted\" 名", Vector: sv["r"]}),
				opMessage(core.Message{ID: "m5", SessionID: "S_1", Role: "user", Content: "apple", Vector: sv["s"]}),
				opMessage(core.Message{ID: "m1", SessionID: "S_1", Role: "user", Content: "apple red", Vector: sv["t"]}),
				opMessage(core.Message{ID: "m6", SessionID: "sX", Role: "user", Content: "red"}),
				opMessage(core.Message{ID: "m7", SessionID: "s_1", Role: "user", Content: ""}),
				tick("1ns", 1), tick("100ms", 100*time.Millisecond), tick("1s", time.Second),
				{"REOPEN", func(e *chatEnv) { e.reopen() }},
			}
			run := func(label string, pre, ops []chatOp, depth int) {
				n := len(ops)
				for d := 1; d <= depth; d++ {
					total := int(math.Pow(float64(n), float64(d)))
					for k := 0; k < total; k++ {
						if w.Stop() {
							return
						}
						if !w.Mine() {
							w.Skip(1)
							continue
						}
						seq := make([]chatOp, d)
						name := label
						for i, x := d-1, k; i >= 0; i-- {
							seq[i] = ops[x%n]
							x /= n
						}
						for _, o := range seq {
							name += "|" + o.name
						}
						w.Case(name, func(c *vk.C) {
							vtime.Set(time.Date(2026, 1, 2, 3, 4, 59, 900000000, time.UTC))
							c.Defer(func() { vtime.Set(time.Time{}) })
							e := &chatEnv{env: newEnv(c, cfgT{"plain", 2, nil}), cm: &chatModel{sess: map[string]core.Session{}}}
							for _, o := range pre {
								o.do(e)
							}
							for _, o := range seq {
								c.Logf("%s", o.name)
								o.do(e)
								c.Trans(1)
							}
							c.State(e.cm.String())
							e.observe()
						})
					}
				}
			}
			for _, n := range []int{5, 40, 120, w.Pick(250, 700)} {
				w.Case(fmt.Sprintf("long|%d", n), func(c *vk.C) { longChat(c, []chatOp{s1, s2, s3}, n) })
			}
			run("prepared", []chatOp{s1, s2, s3}, msgs, w.Pick(3, 4))
			run("full", []chatOp{s1, s2, s3, msgs[0], msgs[9], msgs[1], msgs[2], msgs[3], msgs[4]}, append([]chatOp{
				opMessage(core.Message{ID: "m8", SessionID: "s_1", Role: "user", Content: "red red", Vector: sv["u"]}),
				opMessage(core.Message{ID: "m9", SessionID: "S_1", Role: "user", Content: "pear red apple", Vector: sv["p"]}),
			}, msgs[5:]...), w.Pick(2, 3))
			run("empty", nil, append([]chatOp{s1, s2, s3, opSession(core.Session{ID: "s_1", UserID: "U_1"})}, msgs[:7]...), w.Pick(3, 4))
		}})
}

// longChat stores n messages over three sessions, all of the same length, that
// hold "apple" a different number of times each, with vectors at distinct angles
// and times that are partly equal, and compares long histories and searches.
func longChat(c *vk.C, pre []chatOp, n int) {
	vtime.Set(time.Date(2026, 1, 2, 3, 4, 59, 900000000, time.UTC))
	c.Defer(func() { vtime.Set(time.Time{}) })
	e := &chatEnv{env: newEnv(c, cfgT{"plain", 2, nil}), cm: &chatModel{sess: map[string]core.Session{}}}
	for _, o := range pre {
		o.do(e)
	}
	step := 7
	for n%step == 0 {
		step += 2
	}
	tf := map[string]float64{}
	sids := []string{"s_1", "S_1", "sx1"}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("m%04d", (i*11)%9973)
		k := (i*step)%n + 1
		a := 0.02 + 2.9*float64(i)/float64(n)
		m := core.Message{ID: id, SessionID: sids[i%3], Role: []string{"user", "assistant"}[i%2],
			Content: strings.Repeat("apple ", k) + strings.Repeat("filler ", n-k),
			Vector:  []float32{float32(math.Cos(a)), float32(math.Sin(a))}}
		tf[id] = float64(k)
		opMessage(m).do(e)
		if i%4 == 0 {
			vtime.Advance(time.Duration(1+i%3) * 300 * time.Millisecond)
		}
		c.Trans(1)
	}
	c.State(e.cm.String())
	e.observe()
	lims := []int{0, 1, 3, 10, 11, 49, 51, 64, 99, 101, 129, n, 2 * n}
	for _, sid := range sids {
		var hist []string
		for _, m := range e.cm.msgs {
			if m.SessionID == sid {
				hist = append(hist, m.ID)
			}
		}
		for _, lim := range lims {
			l, err := e.s.GetSessionHistory(bg, sid, lim)
			if err != nil {
				c.Failf("err", "GetSessionHistory: %v", err)
			}
			w := hist
			if len(w) > lim {
				w = w[len(w)-lim:]
			}
			if !sameStrs(msgIDs(l), w) {
				c.Failf("history", "GetSessionHistory(%s, %d) over %d messages = %v, want the last ones in order %v", sid, lim, len(hist), msgIDs(l), w)
			}
		}
	}
	// every ranking below is strict, so the answer is determined
	want := func(what string, l []*core.Message, score map[string]float64, lim int) {
		var ids []string
		for id := range score {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return score[ids[i]] > score[ids[j]] })
		if lim <= 0 {
			return // observe and the defaults cover it
		}
		if len(ids) > lim {
			ids = ids[:lim]
		}
		if !sameStrs(msgIDs(l), ids) {
			c.Failf("ranked", "%s = %v, want the best in order %v", what, msgIDs(l), ids)
		}
		c.Count("queries", 1)
	}
	q := []float32{1, 0.0001}
	for _, lim := range lims[1:] {
		for _, sid := range sids {
			sc := map[string]float64{}
			for _, m := range e.cm.msgs {
				if m.SessionID == sid {
					sc[m.ID] = refCos(q, m.Vector)
				}
			}
			l, err := e.s.SearchChatHistory(bg, q, sid, lim)
			if err != nil {
				c.Failf("err", "SearchChatHistory: %v", err)
			}
			want(fmt.Sprintf("SearchChatHistory(%s,%d)", sid, lim), l, sc, lim)
		}
		for _, u := range []string{"u_1", "U_1"} {
			for _, ex := range []string{"", "s_1", "sX"} {
				sc, kw := map[string]float64{}, map[string]float64{}
				for _, m := range e.cm.msgs {
					if e.cm.sess[m.SessionID].UserID == u && (ex == "" || ex != m.SessionID) {
						sc[m.ID], kw[m.ID] = refCos(q, m.Vector), tf[m.ID]
					}
				}
				l, err := e.s.SearchMessagesByUser(bg, u, q, ex, lim)
				if err != nil {
					c.Failf("err", "SearchMessagesByUser: %v", err)
				}
				want(fmt.Sprintf("SearchMessagesByUser(%s,not %s,%d)", u, ex, lim), l, sc, lim)
				l, err = e.s.KeywordSearchMessages(bg, "apple", u, ex, lim)
				if err != nil {
					c.Failf("err", "KeywordSearchMessages: %v", err)
				}
				want(fmt.Sprintf("KeywordSearchMessages(%s,not %s,%d), messages with the word more often first", u, ex, lim), l, kw, lim)
			}
		}
	}
}
