package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/alxarch/njson"
	"pgregory.net/rapid"
)

// Round is one life of a document: what is parsed and built in it and how
// it ends.
type Round struct {
	Texts []Q  `json:"texts"`           // parsed one after another, valid or not
	Build int  `json:"build,omitempty"` // values built by hand afterwards
	Edit  int  `json:"edit,omitempty"`  // what happens to the first parsed value
	End   byte `json:"end"`             // r: Reset, c: Close and Blank, p: own pool
}

// ReuseCase is a document's whole history.
type ReuseCase struct {
	Rounds []Round `json:"rounds"`
}

// live runs one round and describes everything observable in it.
func (rd Round) live(d *njson.Document) (string, error) {
	var log []string
	note := func(format string, a ...interface{}) { log = append(log, fmt.Sprintf(format, a...)) }
	if root := d.Root(); root.Type() != njson.TypeInvalid {
		return "", errf("a blank document has a root of type %v", root.Type())
	}
	if out, err := d.AppendJSON(nil); err == nil {
		return "", errf("a blank document serialises to %q", out)
	}
	var nodes []njson.Node
	for _, s := range rd.Texts {
		n, tail, err := d.Parse(string(s))
		note("parse: id %d, tail %q, error %v", n.ID(), tail, err)
		if err != nil {
			continue
		}
		if json.Valid([]byte(s)) {
			if err := sameTree(n, mustRef(string(s)), ""); err != nil {
				return "", errf("parsed %q: %v", short(string(s)), err)
			}
		}
		nodes = append(nodes, n)
	}
	for i := 0; i < rd.Build; i++ {
		var n njson.Node
		switch i % 6 {
		case 0:
			n = d.Object()
		case 1:
			n = d.Array()
		case 2:
			n = d.Text("t")
		case 3:
			n = d.Number(float64(i))
		case 4:
			n = d.Null()
		default:
			n = d.True()
		}
		nodes = append(nodes, n)
		out, err := serial(n)
		it := n.Values()
		note("built: id %d, type %v, %d values, %q, %v", n.ID(), n.Type(), it.Len(), out, err)
		if k := len(nodes); k > 1 && i%3 == 2 {
			nodes[k-3].Append(n)
			nodes[k-3].Set("k", n)
			nodes[k-2].Append(n)
			nodes[k-2].Set("k", n)
		}
	}
	if len(nodes) > 0 {
		n := nodes[0]
		switch rd.Edit {
		case 1:
			n.Slice(0, 0)
		case 2:
			n.Append(nodes[len(nodes)-1])
			n.Set("z", nodes[len(nodes)-1])
		case 3:
			n.SetInt(7)
		case 4:
			n.Remove(0)
			n.Strip("a")
			n.Del("b")
		case 5:
			for i := 0; i < 20; i++ {
				n.Append(d.Null())
				n.Set(fmt.Sprint("n", i), d.Null())
			}
		}
	}
	for _, n := range nodes {
		out, err := serial(n)
		note("final: id %d, %q, %v", n.ID(), out, err)
		it := n.Values()
		for it.Next() {
			note("  %d %q %v", it.Index(), it.Key(), it.Value().Type())
		}
	}
	out, err := d.AppendJSON(nil)
	note("document: root %d, %q, %v", d.Root().ID(), out, err)
	return strings.Join(log, "\n") + "\n", nil
}

func checkReuse(c ReuseCase, r *Rec) error {
	var pool njson.Pool
	d := &njson.Document{}
	if len(c.Rounds) > 0 && c.Rounds[0].End == 'c' {
		d = njson.Blank()
	}
	big := 0
	for i, rd := range c.Rounds {
		got, err := rd.live(d)
		if err != nil {
			return errf("round %d: %v", i, err)
		}
		fresh := njson.Document{}
		want, err := rd.live(&fresh)
		if err != nil {
			return errf("round %d, new document: %v", i, err)
		}
		if got != want {
			return errf("round %d: reused document:\n%s\nnew document:\n%s", i, short(got), short(want))
		}
		if len(rd.Texts) > 0 && len(want) > 200 {
			big++
		}
		switch rd.End {
		case 'r':
			d.Reset()
		case 'c':
			d.Close()
			d = njson.Blank()
		default:
			pool.Put(d)
			d = pool.Get()
		}
	}
	r.NonTrivial(len(c.Rounds) > 1 && big > 0)
	r.Label(len(c.Rounds) > 3, "more than three lives")
	r.Label(big > 1, "two larger lives")
	return nil
}

func init() {
	reg("C04", "texts", "histories of 2-8 lives of one document, each parsing valid and malformed texts (deep, wide, truncated), building and editing values, ended by Reset, Close or a pool; everything observable compared with a new document doing the same; non-trivial: at least two lives, one of them with a larger trace",
		25000, 900000, func(t *rapid.T) ReuseCase {
			g := G{t}
			return ReuseCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Round {
				g := G{t}
				rd := Round{End: pick[byte](g, 'r', 'c', 'p'), Texts: []Q{}}
				for i := g.n(4); i >= 0; i-- {
					s := g.docText(docOpts{depth: g.rng(0, 4)})
					if len(s) > 20000 {
						s = s[:20000]
					}
					if g.p(1, 4) {
						s = g.mutate(s)
					}
					if g.p(1, 5) {
						s = s[:g.n(len(s)+1)]
					}
					rd.Texts = append(rd.Texts, Q(s))
				}
				if g.p(1, 4) {
					rd.Texts = rd.Texts[:0]
				}
				if g.p(1, 2) {
					rd.Build = pick(g, 1, 2, 5, 12, 70)
				}
				rd.Edit = g.n(6)
				return rd
			}), pick(g, 2, 3, 5), 8).Draw(t, "rounds")}
		}, checkReuse)
}
