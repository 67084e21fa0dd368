package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
)

// M is a node of the reference tree. Its identity matters: a handle and a
// parent that refer to the same M see each other's edits.
type M struct {
	k      byte // n t f # s [ {
	raw    string
	keys   []string
	kids   []*M
	placed bool // has, or had, a place in a document
	id     uint // id of the real node, once seen
}

func mFrom(v *JV) *M {
	m := &M{k: v.K, raw: v.Raw, placed: true}
	for i, x := range v.A {
		if v.K == '{' {
			m.keys = append(m.keys, v.Keys[i])
		}
		m.kids = append(m.kids, mFrom(x))
	}
	return m
}

func (m *M) copyTree() *M {
	c := &M{k: m.k, raw: m.raw, placed: true, keys: append([]string(nil), m.keys...)}
	for _, k := range m.kids {
		c.kids = append(c.kids, k.copyTree())
	}
	return c
}

func (m *M) contains(x *M) bool {
	if m == x {
		return true
	}
	for _, k := range m.kids {
		if k.contains(x) {
			return true
		}
	}
	return false
}

func (m *M) size() int {
	n := 1
	for _, k := range m.kids {
		n += k.size()
	}
	return n
}

func (m *M) write(b *bytes.Buffer) {
	switch m.k {
	case 's':
		b.WriteByte('"')
		b.WriteString(m.raw)
		b.WriteByte('"')
	case '[':
		b.WriteByte('[')
		for i, x := range m.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			x.write(b)
		}
		b.WriteByte(']')
	case '{':
		b.WriteByte('{')
		for i, x := range m.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteByte('"')
			b.WriteString(m.keys[i])
			b.WriteString(`":`)
			x.write(b)
		}
		b.WriteByte('}')
	default:
		b.WriteString(m.raw)
	}
}

func (m *M) text() string {
	var b bytes.Buffer
	m.write(&b)
	return b.String()
}

func (m *M) typ() njson.Type {
	return map[byte]njson.Type{'n': njson.TypeNull, 't': njson.TypeBoolean, 'f': njson.TypeBoolean, '#': njson.TypeNumber, 's': njson.TypeString, '[': njson.TypeArray, '{': njson.TypeObject}[m.k]
}

// H is a node handle held by the program under test. m is nil for empty
// nodes (failed lookups, the zero Node, handles of a reset document).
type H struct {
	n   njson.Node
	doc int // -1: none
	m   *M
}

// Op is one step of a document program.
type Op struct {
	Op   string `json:"op"`
	D    int    `json:"d,omitempty"`
	H    int    `json:"h,omitempty"`
	V    []int  `json:"v,omitempty"`
	Key  Q      `json:"key,omitempty"`
	Keys []Q    `json:"keys,omitempty"`
	Text Q      `json:"text,omitempty"`
	I    int64  `json:"i,omitempty"`
	J    int64  `json:"j,omitempty"`
}

// DomCase is a whole program over Docs documents.
type DomCase struct {
	Docs int  `json:"docs"`
	Ops  []Op `json:"ops"`
}

type domMachine struct {
	docs    []*njson.Document
	roots   []*M // first value of each document
	hs      []H
	r       *Rec
	edits   int
	inserts int
	copies  int
	adopts  int
	cross   int
	deadUse int
	resets  int
	log     []string
	pools   []*njson.Pool
	viaPool map[int]int
}

func newMachine(docs int, r *Rec) *domMachine {
	m := &domMachine{r: r, viaPool: map[int]int{}}
	for i := 0; i < docs; i++ {
		if i%2 == 0 {
			m.docs = append(m.docs, &njson.Document{})
		} else {
			m.docs = append(m.docs, njson.Blank())
		}
		m.roots = append(m.roots, nil)
	}
	m.pools = []*njson.Pool{{}}
	m.hs = append(m.hs, H{doc: -1}) // the zero Node
	return m
}

func (m *domMachine) add(n njson.Node, doc int, x *M) {
	if x != nil {
		x.id = n.ID()
	}
	h := H{n, doc, x}
	if x == nil {
		h.doc = -1
	}
	m.hs = append(m.hs, h)
	if doc >= 0 && x != nil && m.roots[doc] == nil {
		m.roots[doc] = x
		x.placed = true
	}
}

// created registers a value built by a constructor.
func (m *domMachine) created(n njson.Node, doc int, x *M) {
	first := m.roots[doc] == nil
	x.placed = first
	m.add(n, doc, x)
}

func (m *domMachine) h(i int) *H {
	if i < 0 {
		i = -i
	}
	return &m.hs[i%len(m.hs)]
}

// pick resolves an operand: small numbers are any handle, from 24 on only
// handles of a fitting kind, from 48 on (values) only those without a place.
func (m *domMachine) pick(i int, fits func(h *H) bool) *H {
	if i < 0 {
		i = -i
	}
	if i >= 24 {
		var ok []int
		for j := range m.hs {
			if m.hs[j].m != nil && fits(&m.hs[j]) && (i < 48 || !m.hs[j].m.placed) {
				ok = append(ok, j)
			}
		}
		if len(ok) > 0 {
			return &m.hs[ok[i%len(ok)]]
		}
	}
	return m.h(i)
}

func (m *domMachine) v(i int) *H { return m.pick(i, func(*H) bool { return true }) }

// place returns the tree that inserting value v into container c stores.
func (m *domMachine) place(c *H, v *H) *M {
	m.inserts++
	if v.doc != c.doc {
		m.cross++
		return v.m.copyTree()
	}
	if v.m.placed || v.m.contains(c.m) {
		m.copies++
		return v.m.copyTree()
	}
	m.adopts++
	v.m.placed = true
	return v.m
}

func (m *domMachine) totalSize() int {
	n := 0
	for _, h := range m.hs {
		if h.m != nil {
			n += h.m.size()
		}
	}
	return n
}

// learn records the ids of all nodes of the subtree.
func learn(n njson.Node, x *M) error {
	x.id = n.ID()
	it := n.Values()
	if it.Len() != len(x.kids) {
		return errf("node has %d values, want %d", it.Len(), len(x.kids))
	}
	for i := 0; it.Next(); i++ {
		if err := learn(it.Value(), x.kids[i]); err != nil {
			return err
		}
	}
	return nil
}

// reorder accepts any member order in the objects of the subtree (deletion
// does not promise one) and takes over the order found.
func reorder(n njson.Node, x *M, deep bool) error {
	if x.k == '{' {
		byID := map[uint]int{}
		for i, k := range x.kids {
			if _, dup := byID[k.id]; dup {
				return errf("one node stored twice in an object")
			}
			byID[k.id] = i
		}
		var keys []string
		var kids []*M
		it := n.Values()
		for it.Next() {
			i, ok := byID[it.ID()]
			if !ok {
				return errf("unexpected member %q", it.Key())
			}
			delete(byID, it.ID())
			keys = append(keys, x.keys[i])
			kids = append(kids, x.kids[i])
		}
		if len(byID) != 0 {
			return errf("%d members lost", len(byID))
		}
		x.keys, x.kids = keys, kids
	}
	if deep {
		it := n.Values()
		if it.Len() != len(x.kids) {
			return errf("node has %d values, want %d", it.Len(), len(x.kids))
		}
		for i := 0; it.Next(); i++ {
			if err := reorder(it.Value(), x.kids[i], deep); err != nil {
				return err
			}
		}
	}
	return nil
}

func (x *M) strip(key string) {
	if x.k == '{' {
		var keys []string
		var kids []*M
		for i, k := range x.keys {
			if k != key {
				keys = append(keys, k)
				kids = append(kids, x.kids[i])
			}
		}
		x.keys, x.kids = keys, kids
	}
	for _, k := range x.kids {
		k.strip(key)
	}
}

func (x *M) find(key string) int {
	for i, k := range x.keys {
		if k == key {
			return i
		}
	}
	return -1
}

// lookupM is the reference for Lookup.
func (x *M) lookupM(path []string) *M {
	for _, p := range path {
		if x == nil {
			return nil
		}
		switch x.k {
		case '{':
			if i := x.find(p); i >= 0 {
				x = x.kids[i]
			} else {
				return nil
			}
		case '[':
			i, ok := refIndex(p)
			if !ok || i >= len(x.kids) {
				return nil
			}
			x = x.kids[i]
		default:
			return nil
		}
	}
	return x
}

func refIndex(p string) (int, bool) {
	if p == "" {
		return 0, false
	}
	for i := 0; i < len(p); i++ {
		if p[i] < '0' || p[i] > '9' {
			return 0, false
		}
	}
	i, err := strconv.Atoi(p)
	return i, err == nil
}

const domLimit = 3000

func (m *domMachine) scalar(x *M, k byte, raw string) {
	x.k, x.raw, x.keys, x.kids = k, raw, nil, nil
}

// textRaw checks the spelling chosen for a text and returns it.
func textRaw(n njson.Node, text string, html bool) (string, error) {
	raw := n.Raw()
	if !json.Valid([]byte(`"` + raw + `"`)) {
		return "", errf("text %q stored as invalid JSON string %q", text, raw)
	}
	if got := decodeBody(raw); got != sanitize(text) {
		return "", errf("text %q stored as %q, which decodes to %q", text, raw, got)
	}
	if html && strings.ContainsAny(raw, "<>&") {
		return "", errf("text %q stored as HTML-unsafe %q", text, raw)
	}
	return raw, nil
}

func jsonFloat(f float64) string {
	b, err := json.Marshal(f)
	if err != nil {
		panic(harnessBug{err})
	}
	return string(b)
}

// step runs one operation on the real documents and on the model.
func (m *domMachine) step(op Op) error {
	di := op.D
	if di < 0 {
		di = -di
	}
	di %= len(m.docs)
	d := m.docs[di]
	h := m.pick(op.H, func(h *H) bool {
		switch op.Op {
		case "set", "del", "get", "getnth":
			return h.m.k == '{'
		case "append", "replace", "remove", "slice", "index":
			return h.m.k == '['
		case "strip", "lookup":
			return h.m.k == '{' || h.m.k == '['
		}
		return true
	})
	if h.m == nil {
		switch op.Op {
		case "parse", "badparse", "new", "text", "number", "raw", "reset", "close", "pool":
		default:
			m.deadUse++
		}
	}
	key := string(op.Key)
	isObj := h.m != nil && h.m.k == '{'
	isArr := h.m != nil && h.m.k == '['
	switch op.Op {
	case "parse":
		if m.totalSize() > domLimit {
			return nil
		}
		n, tail, err := d.Parse(string(op.Text))
		if err != nil || strings.TrimSpace(tail) != "" {
			return errf("Parse(%q): tail %q, %v", op.Text, tail, err)
		}
		x := mFrom(mustRef(string(op.Text)))
		x.placed = m.roots[di] == nil
		m.add(n, di, x)
	case "badparse":
		if _, _, err := d.Parse(string(op.Text)); err == nil {
			return errf("Parse(%q) succeeded", op.Text)
		}
	case "new":
		var n njson.Node
		var x *M
		switch op.I % 5 {
		case 0:
			n, x = d.Object(), &M{k: '{'}
		case 1:
			n, x = d.Array(), &M{k: '['}
		case 2:
			n, x = d.True(), &M{k: 't', raw: "true"}
		case 3:
			n, x = d.False(), &M{k: 'f', raw: "false"}
		default:
			n, x = d.Null(), &M{k: 'n', raw: "null"}
		}
		m.created(n, di, x)
	case "text":
		var n njson.Node
		html := op.I%2 == 1
		if html {
			n = d.TextHTML(string(op.Text))
		} else {
			n = d.Text(string(op.Text))
		}
		raw, err := textRaw(n, string(op.Text), html)
		if err != nil {
			return err
		}
		m.created(n, di, &M{k: 's', raw: raw})
	case "raw":
		m.created(d.TextRaw(string(op.Text)), di, &M{k: 's', raw: string(op.Text)})
	case "number":
		f := math.Float64frombits(uint64(op.I))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		m.created(d.Number(f), di, &M{k: '#', raw: jsonFloat(f)})
	case "get":
		n := h.n.Get(key)
		var x *M
		if isObj {
			if i := h.m.find(key); i >= 0 {
				x = h.m.kids[i]
			}
		}
		return m.nav(n, h, x, "Get")
	case "getnth": // the key of an existing member
		if isObj && len(h.m.keys) > 0 {
			k := h.m.keys[abs(op.I)%len(h.m.keys)]
			return m.nav(h.n.Get(k), h, h.m.kids[h.m.find(k)], "Get")
		}
	case "index":
		n := h.n.Index(int(op.I))
		var x *M
		if isArr && op.I >= 0 && int(op.I) < len(h.m.kids) {
			x = h.m.kids[op.I]
		}
		return m.nav(n, h, x, "Index")
	case "lookup":
		var path []string
		for _, k := range op.Keys {
			path = append(path, string(k))
		}
		n := h.n.Lookup(path...)
		var x *M
		if h.m != nil {
			x = h.m.lookupM(path)
		}
		return m.nav(n, h, x, fmt.Sprintf("Lookup(%q)", path))
	case "set":
		v := m.v(one(op.V))
		if m.totalSize() > domLimit && v.m != nil {
			return nil
		}
		h.n.Set(key, v.n)
		if isObj && v.m != nil {
			x := m.place(h, v)
			if i := h.m.find(key); i >= 0 {
				h.m.kids[i] = x
			} else {
				h.m.keys = append(h.m.keys, key)
				h.m.kids = append(h.m.kids, x)
			}
			m.edits++
		}
	case "append":
		if m.totalSize() > domLimit {
			return nil
		}
		var ns []njson.Node
		var vs []*H
		for _, i := range op.V {
			v := m.v(i)
			ns = append(ns, v.n)
			vs = append(vs, v)
		}
		h.n.Append(ns...)
		if isArr {
			var xs []*M
			for _, v := range vs {
				if v.m != nil {
					xs = append(xs, m.place(h, v))
				}
			}
			h.m.kids = append(h.m.kids, xs...)
			m.edits++
		}
	case "replace":
		v := m.v(one(op.V))
		if m.totalSize() > domLimit && v.m != nil {
			return nil
		}
		h.n.Replace(int(op.I), v.n)
		if isArr && v.m != nil && op.I >= 0 && int(op.I) < len(h.m.kids) {
			h.m.kids[op.I] = m.place(h, v)
			m.edits++
		}
	case "remove":
		h.n.Remove(int(op.I))
		if isArr && op.I >= 0 && int(op.I) < len(h.m.kids) {
			h.m.kids = append(append([]*M(nil), h.m.kids[:op.I]...), h.m.kids[op.I+1:]...)
			m.edits++
		}
	case "slice":
		h.n.Slice(int(op.I), int(op.J))
		// Whether an empty range empties the array or is ignored is not specified.
		if isArr && 0 <= op.I && op.I == op.J && int(op.J) <= len(h.m.kids) {
			if it := h.n.Values(); it.Len() == 0 {
				h.m.kids = nil
			}
		} else if isArr && 0 <= op.I && op.I < op.J && int(op.J) <= len(h.m.kids) {
			h.m.kids = append([]*M(nil), h.m.kids[op.I:op.J]...)
			m.edits++
		}
	case "del":
		if isObj {
			if err := learn(h.n, h.m); err != nil {
				return err
			}
		}
		h.n.Del(key)
		if isObj {
			if i := h.m.find(key); i >= 0 {
				h.m.keys = append(append([]string(nil), h.m.keys[:i]...), h.m.keys[i+1:]...)
				h.m.kids = append(append([]*M(nil), h.m.kids[:i]...), h.m.kids[i+1:]...)
				m.edits++
				if err := reorder(h.n, h.m, false); err != nil {
					return errf("after Del(%q): %v", key, err)
				}
			}
		}
	case "strip":
		if h.m != nil {
			if err := learn(h.n, h.m); err != nil {
				return err
			}
		}
		h.n.Strip(key)
		if h.m != nil {
			n := h.m.size()
			h.m.strip(key)
			if h.m.size() != n {
				m.edits++
				if err := reorder(h.n, h.m, true); err != nil {
					return errf("after Strip(%q): %v", key, err)
				}
			}
		}
	case "setint":
		h.n.SetInt(op.I)
		if h.m != nil {
			m.scalar(h.m, '#', strconv.FormatInt(op.I, 10))
			m.edits++
		}
	case "setuint":
		h.n.SetUint(uint64(op.I))
		if h.m != nil {
			m.scalar(h.m, '#', strconv.FormatUint(uint64(op.I), 10))
			m.edits++
		}
	case "setfloat":
		f := math.Float64frombits(uint64(op.I))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = -0.25
		}
		h.n.SetFloat(f)
		if h.m != nil {
			m.scalar(h.m, '#', jsonFloat(f))
			m.edits++
		}
	case "setstring":
		html := op.I%2 == 1
		if html {
			h.n.SetStringHTML(string(op.Text))
		} else {
			h.n.SetString(string(op.Text))
		}
		if h.m != nil {
			raw, err := textRaw(h.n, string(op.Text), html)
			if err != nil {
				return err
			}
			m.scalar(h.m, 's', raw)
			m.edits++
		}
	case "setraw":
		h.n.SetStringRaw(string(op.Text))
		if h.m != nil {
			m.scalar(h.m, 's', string(op.Text))
			m.edits++
		}
	case "setlit":
		switch op.I % 3 {
		case 0:
			h.n.SetTrue()
			if h.m != nil {
				m.scalar(h.m, 't', "true")
			}
		case 1:
			h.n.SetFalse()
			if h.m != nil {
				m.scalar(h.m, 'f', "false")
			}
		default:
			h.n.SetNull()
			if h.m != nil {
				m.scalar(h.m, 'n', "null")
			}
		}
		m.edits++
	case "reset":
		d.Reset()
		m.kill(di)
	case "close": // back to the default pool and out again
		d.Close()
		m.kill(di)
		m.docs[di] = njson.Blank()
	case "pool":
		p := m.pools[0]
		p.Put(d)
		m.kill(di)
		m.docs[di] = p.Get()
	case "with":
		o := m.h(one(op.V))
		if h.doc >= 0 && o.doc == h.doc && h.m != nil && o.m != nil {
			return m.nav(h.n.With(o.n.ID()), h, o.m, "With")
		}
		if h.m == nil { // an empty node stays empty, whatever id it gets
			n := h.n.With(uint(op.I))
			if m.isDead(h) {
				m.add(n, -1, nil)
			}
		}
	default:
		panic(harnessBug{fmt.Errorf("unknown op %q", op.Op)})
	}
	return nil
}

// isDead: the zero Node or a handle of a reset document (not a failed lookup
// in a live document, whose With is meant to find other nodes).
func (m *domMachine) isDead(h *H) bool { return h.n.Document() == nil }

func one(v []int) int {
	if len(v) == 0 {
		return 0
	}
	return v[0]
}

func abs(i int64) int {
	if i < 0 {
		i = -i
	}
	if i < 0 {
		i = 0
	}
	return int(i % (1 << 30))
}

func (m *domMachine) nav(n njson.Node, h *H, x *M, what string) error {
	if x == nil {
		if n.Type() != njson.TypeInvalid {
			return errf("%s found a %v, want nothing", what, n.Type())
		}
		m.add(n, -1, nil)
		return nil
	}
	if n.Type() != x.typ() {
		return errf("%s gives %v, want %v", what, n.Type(), x.typ())
	}
	m.add(n, h.doc, x)
	return nil
}

// kill marks all handles of a document as empty.
func (m *domMachine) kill(di int) {
	m.resets++
	for i := range m.hs {
		if m.hs[i].doc == di {
			m.hs[i].doc, m.hs[i].m = -1, nil
		}
	}
	m.roots[di] = nil
}

// verify compares everything readable with the model.
func (m *domMachine) verify() error {
	for i := range m.hs {
		h := &m.hs[i]
		if err := m.verifyHandle(h); err != nil {
			return errf("handle %d: %v", i, err)
		}
	}
	for di, d := range m.docs {
		x := m.roots[di]
		b, err := d.AppendJSON([]byte("pre"))
		if x == nil {
			if err == nil {
				return errf("empty document %d serialises to %q", di, b)
			}
			if d.Root().Type() != njson.TypeInvalid {
				return errf("empty document %d has a root of type %v", di, d.Root().Type())
			}
			continue
		}
		if err != nil || string(b) != "pre"+x.text() {
			return errf("document %d serialises to %q, %v, want %q", di, b, err, x.text())
		}
		if d.Root().Type() != x.typ() {
			return errf("document %d root type %v, want %v", di, d.Root().Type(), x.typ())
		}
	}
	return nil
}

func (m *domMachine) verifyHandle(h *H) error {
	n := h.n
	if h.m == nil {
		return emptyNode(n)
	}
	if err := sameShape(n, h.m); err != nil { // first, as it ends even if n has a cycle
		return err
	}
	want := h.m.text()
	got, err := serial(n)
	if err != nil || got != want {
		return errf("reads %q, %v, want %q", got, err, want)
	}
	if raw, t := n.Data(); t != h.m.typ() || raw != h.m.raw || n.Type() != t || n.Raw() != raw {
		return errf("Data %q %v, want %q %v", raw, t, h.m.raw, h.m.typ())
	}
	it := n.Values()
	if it.Len() != len(h.m.kids) {
		return errf("%d values, want %d", it.Len(), len(h.m.kids))
	}
	i := 0
	for ; it.Next() && i < len(h.m.kids); i++ {
		wk := ""
		if h.m.k == '{' {
			wk = h.m.keys[i]
		}
		if it.Key() != wk || it.Value().Type() != h.m.kids[i].typ() {
			return errf("value %d is %q %v, want %q %v", i, it.Key(), it.Value().Type(), wk, h.m.kids[i].typ())
		}
	}
	if i != len(h.m.kids) {
		return errf("iterator yields %d values, want %d", i, len(h.m.kids))
	}
	if h.m.k == 's' {
		if n.Unescaped() != decodeBody(h.m.raw) {
			return errf("Unescaped %q of raw %q", n.Unescaped(), h.m.raw)
		}
	} else if n.Unescaped() != "" {
		return errf("Unescaped %q on %v", n.Unescaped(), n.Type())
	}
	return nil
}

// emptyNode checks that a node reads as an empty one.
func emptyNode(n njson.Node) error {
	if t := n.Type(); t != njson.TypeInvalid {
		return errf("empty node has type %v", t)
	}
	if s, t := n.Data(); s != "" || t != njson.TypeInvalid || n.Raw() != "" || n.Unescaped() != "" {
		return errf("empty node has data %q %q", s, n.Unescaped())
	}
	if _, ok := n.ToFloat(); ok {
		return errf("empty node converts to float")
	}
	if _, ok := n.ToInt(); ok {
		return errf("empty node converts to int")
	}
	if _, ok := n.ToUint(); ok {
		return errf("empty node converts to uint")
	}
	if _, ok := n.ToBool(); ok {
		return errf("empty node converts to bool")
	}
	if v, ok := n.ToInterface(); ok {
		return errf("empty node converts to interface %v", v)
	}
	it := n.Values()
	if it.Len() != 0 || it.Next() {
		return errf("empty node has values")
	}
	it.Reset()
	if it.Next() {
		return errf("empty node has values after Reset")
	}
	it.Close()
	if it.Next() {
		return errf("empty node has values after Close")
	}
	if n.Get("a").Type() != njson.TypeInvalid || n.Index(0).Type() != njson.TypeInvalid || n.Lookup("a").Type() != njson.TypeInvalid || n.Lookup("0").Type() != njson.TypeInvalid || n.Lookup().Type() != njson.TypeInvalid {
		return errf("empty node leads to a value")
	}
	if _, err := n.AppendJSON(nil); err == nil {
		return errf("empty node serialises")
	}
	if k, err := n.PrintJSON(&bytes.Buffer{}); err == nil || k != 0 {
		return errf("empty node prints %d bytes", k)
	}
	if n.WrapUnmarshalJSON(&rawCatcher{}) == nil {
		return errf("WrapUnmarshalJSON on empty node succeeds")
	}
	if n.WrapUnmarshalText(&rawCatcher{}) == nil {
		return errf("WrapUnmarshalText on empty node succeeds")
	}
	_ = n.TypeError(njson.TypeString).Error()
	return nil
}

type rawCatcher struct {
	calls int
	data  string
	err   error
	hook  func()
}

func (r *rawCatcher) UnmarshalJSON(b []byte) error {
	r.calls++
	r.data = string(b)
	if r.hook != nil {
		r.hook()
		if string(b) != r.data {
			r.data = "CHANGED DURING THE CALL: " + string(b)
		}
	}
	return r.err
}

func (r *rawCatcher) UnmarshalText(b []byte) error { return r.UnmarshalJSON(b) }

func runDom(c DomCase, r *Rec) (*domMachine, error) {
	m := newMachine(c.Docs, r)
	every := len(c.Ops) < 40
	for i, op := range c.Ops {
		if err := m.step(op); err != nil {
			return m, errf("op %d %s: %v", i, mustJSON(op), err)
		}
		if every || i%7 == 0 {
			if err := m.verify(); err != nil {
				return m, errf("after op %d %s: %v", i, mustJSON(op), err)
			}
		}
	}
	if err := m.verify(); err != nil {
		return m, errf("at the end: %v", err)
	}
	// everything is valid JSON
	for i := range m.hs {
		if h := &m.hs[i]; h.m != nil {
			s, _ := serial(h.n)
			if !json.Valid([]byte(s)) {
				return m, errf("handle %d serialises to invalid JSON %q", i, s)
			}
		}
	}
	r.Label(m.edits > 0, "edits")
	r.Label(m.adopts > 0, "adopted")
	r.Label(m.copies > 0, "copied-in-document")
	r.Label(m.cross > 0, "cross-document")
	r.Label(m.deadUse > 0, "empty-node-used")
	r.Label(m.resets > 0, "reset")
	return m, nil
}

func sameShape(n njson.Node, x *M) error {
	it := n.Values()
	if n.Type() != x.typ() || it.Len() != len(x.kids) {
		return errf("a %v with %d values instead of a %v with %d", n.Type(), it.Len(), x.typ(), len(x.kids))
	}
	for i := 0; it.Next() && i < len(x.kids); i++ {
		if err := sameShape(it.Value(), x.kids[i]); err != nil {
			return err
		}
	}
	return nil
}
