package main

import (
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"pgregory.net/rapid"
)

// EpochOp is one step in the life of some documents.
type EpochOp struct {
	Op   string `json:"op"`
	D    int    `json:"d"`
	N    int    `json:"n,omitempty"`
	Text Q      `json:"text,omitempty"`
}

// EpochCase takes handles, also on empty and on very large documents, while
// documents are emptied and refilled.
type EpochCase struct {
	Docs int       `json:"docs"`
	Ops  []EpochOp `json:"ops"`
}

type epochHandle struct {
	n     njson.Node
	d     *njson.Document
	epoch int
	want  string // the value, "" when unknown
	id    uint
}

func checkEpochs(c EpochCase, r *Rec) error {
	var pools [2]njson.Pool
	epochs := map[*njson.Document]int{}
	var docs []*njson.Document
	for i := 0; i < c.Docs; i++ {
		docs = append(docs, &njson.Document{})
	}
	var hs []epochHandle
	add := func(h epochHandle) {
		if len(hs) < 40 {
			hs = append(hs, h)
		} else {
			hs[(len(hs)*7+int(h.id))%40] = h
		}
	}
	stale, emptyResets, big := 0, 0, false
	for step, op := range c.Ops {
		di := op.D % len(docs)
		d := docs[di]
		switch op.Op {
		case "parse":
			s := string(op.Text)
			if op.N > 0 {
				s = "[" + strings.Repeat(s+",", op.N) + s + "]"
			}
			n, _, err := d.Parse(s)
			if err != nil {
				return errf("step %d: Parse(%q): %v", step, short(s), err)
			}
			add(epochHandle{n, d, epochs[d], mustRef(s).text(), n.ID()})
			if op.N > 500 {
				big = true
			}
			if op.N > 0 {
				k := n.Index(op.N)
				add(epochHandle{k, d, epochs[d], mustRef(string(op.Text)).text(), k.ID()})
			}
		case "null":
			n := d.Null()
			add(epochHandle{n, d, epochs[d], "null", n.ID()})
		case "root":
			add(epochHandle{d.Root(), d, epochs[d], "", 0})
		case "node":
			add(epochHandle{d.Node(uint(op.N)), d, epochs[d], "", uint(op.N)})
		case "reset", "close", "pool":
			if d.Root().Type() == njson.TypeInvalid {
				emptyResets++
			}
			epochs[d]++
			switch op.Op {
			case "reset":
				for d.Reset(); op.N > 0; op.N-- {
					epochs[d]++
					d.Reset()
				}
			case "close":
				d.Close()
				docs[di] = njson.Blank()
			default:
				pools[op.N%2].Put(d)
				docs[di] = pools[op.N%2].Get()
			}
			for j, o := range docs {
				if j != di && o == docs[di] {
					return errf("step %d: a document in use was handed out again", step)
				}
			}
		}
		for i, h := range hs {
			inUse := false
			for _, d := range docs {
				inUse = inUse || d == h.d
			}
			if epochs[h.d] == h.epoch {
				if h.n.Document() != h.d {
					return errf("step %d: handle %d lost its document", step, i)
				}
				if !inUse || h.want == "" {
					continue
				}
				if got, err := serial(h.n); err != nil || got != h.want {
					return errf("step %d: handle %d reads %q, %v, want %q", step, i, short(got), err, short(h.want))
				}
				continue
			}
			stale++
			if h.n.Document() != nil {
				return errf("step %d: stale handle %d still has a document", step, i)
			}
			if err := emptyNode(h.n); err != nil {
				return errf("step %d: stale handle %d: %v", step, i, err)
			}
			if w := h.n.With(0); w.Document() != nil || w.Type() != njson.TypeInvalid {
				return errf("step %d: With(0) of stale handle %d is a %v", step, i, w.Type())
			}
		}
		// Writing through stale handles, and inserting them, changes nothing.
		before := make([]string, len(docs))
		for i, d := range docs {
			out, err := d.AppendJSON(nil)
			before[i] = string(out) + strconv.FormatBool(err == nil)
		}
		for i, h := range hs {
			if epochs[h.d] == h.epoch || (i+step)%3 != 0 {
				continue
			}
			root := docs[di].Root()
			h.n.SetInt(99)
			h.n.Set("stale", root)
			h.n.Append(root)
			h.n.Replace(0, root)
			h.n.Remove(0)
			h.n.Slice(0, 1)
			h.n.Strip("a")
			h.n.Del("a")
			root.Append(h.n)
			root.Replace(0, h.n)
			root.Set("stale", h.n)
		}
		for i, d := range docs {
			out, err := d.AppendJSON(nil)
			if after := string(out) + strconv.FormatBool(err == nil); after != before[i] {
				return errf("step %d: stale handles changed document %d from %q to %q", step, i, short(before[i]), short(after))
			}
		}
	}
	r.NonTrivial(stale > 0)
	r.Label(emptyResets > 0, "empty document reset")
	r.Label(big, "over 500 nodes")
	return nil
}

func init() {
	reg("C05", "epochs", "histories of 2-40 steps over 1-3 documents, empty, small or with up to 5000 nodes, that take handles (parsed, built, Root, Node(id)) and Reset, Close or pool the documents, also while empty; after each step every live handle reads its value and every stale one is inert; non-trivial: some handle became stale",
		25000, 1000000, func(t *rapid.T) EpochCase {
			return EpochCase{Docs: 1 + (G{t}).n(3), Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) EpochOp {
				g := G{t}
				op := EpochOp{Op: pick(g, "parse", "parse", "null", "root", "root", "node", "reset", "reset", "close", "pool"), D: g.n(3)}
				switch op.Op {
				case "parse":
					op.Text = Q(pick(g, "1", "null", `"a"`, "[]", `{"a":1}`, `[1,[2]]`, `{"a":{"a":[]},"b":"c"}`))
					if g.p(1, 4) {
						op.N = pick(g, 1, 3, 30, 63, 64, 100)
					}
					if g.p(1, 60) {
						op.N = pick(g, 300, 1100, 2500)
					}
				case "node":
					op.N = pick(g, 0, 1, 2, 3, 10, 1000)
				case "pool":
					op.N = g.n(2)
				case "reset":
					if g.p(1, 8) {
						op.N = pick(g, 1, 126, 127, 254, 255, 256, 511, 1023, 4095, 65534, 65535, 65536)
					}
				}
				return op
			}), 2, 40).Draw(t, "ops")}
		}, checkEpochs)
}
