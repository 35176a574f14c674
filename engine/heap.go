package main

// Persistent radix trie from ObjID to *Obj with owner tokens for in-place mutation.

const trieBits = 5
const trieW = 1 << trieBits
const trieDepth = 6 // 30 bits

type node struct {
	owner uint64
	kids  [trieW]*node
	objs  *[trieW]*Obj
}

type Obj struct {
	owner uint64
	cells []Value
	m     *MapV
	ch    *ChanV
}

type mapEnt struct {
	key  Value
	val  Value
	pres *Expr // nil = present
}
type MapV struct {
	ents []mapEnt
	idx  map[string]int
	elem Value // zero value of element
}
type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	// senders waiting are recorded in the goroutines
	vcs []vclock
	cvc vclock
	snd int
	rcv int
}

func (n *node) get(id ObjID) *Obj {
	for d := trieDepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(uint(d)*trieBits))&(trieW-1)]
	}
	if n == nil || n.objs == nil {
		return nil
	}
	return n.objs[id&(trieW-1)]
}

func (n *node) own(tok uint64) *node {
	if n == nil {
		return &node{owner: tok}
	}
	if n.owner == tok {
		return n
	}
	c := *n
	c.owner = tok
	if n.objs != nil {
		o := *n.objs
		c.objs = &o
	}
	return &c
}

func trieSet(root *node, id ObjID, o *Obj, tok uint64) *node {
	root = root.own(tok)
	n := root
	for d := trieDepth - 1; d > 0; d-- {
		i := (id >> (uint(d) * trieBits)) & (trieW - 1)
		k := n.kids[i].own(tok)
		n.kids[i] = k
		n = k
	}
	if n.objs == nil {
		n.objs = new([trieW]*Obj)
	}
	n.objs[id&(trieW-1)] = o
	return root
}

// trieDiff calls f for every id whose object differs (by pointer) between a and b.
func trieDiff(a, b *node, depth int, pre ObjID, f func(id ObjID, x, y *Obj)) {
	if a == b {
		return
	}
	if depth == 0 {
		for i := 0; i < trieW; i++ {
			var x, y *Obj
			if a != nil && a.objs != nil {
				x = a.objs[i]
			}
			if b != nil && b.objs != nil {
				y = b.objs[i]
			}
			if x != y {
				f(pre<<trieBits|ObjID(i), x, y)
			}
		}
		return
	}
	for i := 0; i < trieW; i++ {
		var x, y *node
		if a != nil {
			x = a.kids[i]
		}
		if b != nil {
			y = b.kids[i]
		}
		if x != y {
			trieDiff(x, y, depth-1, pre<<trieBits|ObjID(i), f)
		}
	}
}

func (o *Obj) clone(tok uint64) *Obj {
	c := &Obj{owner: tok}
	if o.cells != nil {
		c.cells = append(make([]Value, 0, len(o.cells)), o.cells...)
	}
	if o.m != nil {
		m := &MapV{elem: o.m.elem, ents: append([]mapEnt{}, o.m.ents...), idx: make(map[string]int, len(o.m.idx)+1)}
		for k, v := range o.m.idx {
			m.idx[k] = v
		}
		c.m = m
	}
	if o.ch != nil {
		h := *o.ch
		h.buf = append([]Value{}, o.ch.buf...)
		h.vcs = append([]vclock{}, o.ch.vcs...)
		c.ch = &h
	}
	return c
}
