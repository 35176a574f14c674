package main

import "fmt"

// A multi-valued decision diagram over the finite-domain inputs: an exact symbolic decision
// procedure for guards without free bit-vector or floating-point terms. Edges are node<<1|negated;
// node 0 is the constant true.

type bEdge int32

const (
	bTrue  bEdge = 0
	bFalse bEdge = 1
	bNone  bEdge = -1 // not expressible
	bOver  bEdge = -2 // node budget exceeded
)

type bNode struct {
	v    int32 // variable index
	kids []bEdge
}

type bdd struct {
	c     *Ctx
	nodes []bNode
	uniq  map[uint64][]int32
	memo  map[*Expr]bEdge
	and2  map[uint64]bEdge
	left  int // nodes left in this query
	stk   []*Expr
	acc   []bEdge // conjunction of the expressible part of stk[:i+1]
	pure  []bool  // no inexpressible conjunct so far
	hits  int
	fails int
}

type bddOver struct{}

func newBDD(c *Ctx) *bdd {
	b := &bdd{c: c}
	b.reset()
	return b
}

func (b *bdd) reset() {
	b.nodes = []bNode{{v: 1 << 30}}
	b.uniq = map[uint64][]int32{}
	b.memo = map[*Expr]bEdge{}
	b.and2 = map[uint64]bEdge{}
	b.stk, b.acc, b.pure = nil, nil, nil
}

func (b *bdd) mk(v int32, kids []bEdge) bEdge {
	same := true
	for _, k := range kids[1:] {
		if k != kids[0] {
			same = false
			break
		}
	}
	if same {
		return kids[0]
	}
	neg := kids[0] & 1
	h := uint64(v)
	for i := range kids {
		kids[i] ^= neg
		h = mix(h, uint64(kids[i]))
	}
next:
	for _, n := range b.uniq[h] {
		o := &b.nodes[n]
		if o.v != v || len(o.kids) != len(kids) {
			continue
		}
		for i := range kids {
			if o.kids[i] != kids[i] {
				continue next
			}
		}
		return bEdge(n)<<1 | neg
	}
	b.left--
	if b.left < 0 {
		panic(bddOver{})
	}
	n := int32(len(b.nodes))
	b.nodes = append(b.nodes, bNode{v, kids})
	b.uniq[h] = append(b.uniq[h], n)
	return bEdge(n)<<1 | neg
}

func (b *bdd) and(x, y bEdge) bEdge {
	switch {
	case x == bFalse || y == bFalse || x == y^1:
		return bFalse
	case x == bTrue || x == y:
		return y
	case y == bTrue:
		return x
	}
	if x > y {
		x, y = y, x
	}
	key := uint64(uint32(x))<<32 | uint64(uint32(y))
	if r, ok := b.and2[key]; ok {
		return r
	}
	nx, ny := &b.nodes[x>>1], &b.nodes[y>>1]
	v, n := nx.v, len(nx.kids)
	if ny.v < v {
		v, n = ny.v, len(ny.kids)
	}
	kx, ky := nx.kids, ny.kids
	ax, ay := nx.v == v, ny.v == v
	kids := make([]bEdge, n)
	for i := range kids {
		p, q := x, y
		if ax {
			p = kx[i] ^ x&1
		}
		if ay {
			q = ky[i] ^ y&1
		}
		kids[i] = b.and(p, q)
	}
	r := b.mk(v, kids)
	b.and2[key] = r
	return r
}

// of translates a guard.
func (b *bdd) of(e *Expr) bEdge {
	switch e.op {
	case OTrue:
		return bTrue
	case OFalse:
		return bFalse
	}
	if r, ok := b.memo[e]; ok {
		return r
	}
	r := bNone
	switch e.op {
	case OIn:
		kids := make([]bEdge, e.v.fd)
		for i := range kids {
			kids[i] = bFalse
			if e.n>>uint(i)&1 != 0 {
				kids[i] = bTrue
			}
		}
		r = b.mk(int32(e.v.idx), kids)
	case OVar:
		if e.sort == SBool {
			r = b.mk(int32(e.v.idx), []bEdge{bFalse, bTrue})
		}
	case ONot:
		if x := b.of(e.a[0]); x >= 0 {
			r = x ^ 1
		}
	case OAnd, OOr:
		n := bEdge(0)
		if e.op == OOr {
			n = 1
		}
		r = bTrue
		for _, a := range e.a {
			x := b.of(a)
			if x < 0 {
				r = bNone
				break
			}
			r = b.and(r, x^n)
		}
		if r >= 0 {
			r ^= n
		}
	case OIte:
		if e.sort == SBool {
			g, x, y := b.of(e.a[0]), b.of(e.a[1]), b.of(e.a[2])
			if g >= 0 && x >= 0 && y >= 0 {
				r = b.and(b.and(g, x)^1, b.and(g^1, y)^1) ^ 1
			}
		}
	}
	b.memo[e] = r
	return r
}

// check decides pc /\ e: Unknown when it is not expressible or too large.
func (b *bdd) check(pc []*Expr, e *Expr) (res SatRes, m *Model) {
	if b.fails > 20 {
		return Unknown, nil
	}
	if len(b.nodes) > 4000000 || len(b.and2) > 6000000 {
		b.reset()
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(bddOver); !ok {
				panic(r)
			}
			b.fails++
			if len(b.nodes) > 2000000 {
				b.reset()
			}
			res, m = Unknown, nil
		}
	}()
	b.left = 300000
	k := 0
	for k < len(b.stk) && k < len(pc) && b.stk[k] == pc[k] {
		k++
	}
	b.stk, b.acc, b.pure = b.stk[:k], b.acc[:k], b.pure[:k]
	cur, pure := bTrue, true
	if k > 0 {
		cur, pure = b.acc[k-1], b.pure[k-1]
	}
	for ; k < len(pc); k++ {
		x := b.of(pc[k])
		if x < 0 {
			pure = false
		} else {
			cur = b.and(cur, x)
		}
		b.stk, b.acc, b.pure = append(b.stk, pc[k]), append(b.acc, cur), append(b.pure, pure)
	}
	if e != nil {
		x := b.of(e)
		if x < 0 {
			pure = false
		} else {
			cur = b.and(cur, x)
		}
	}
	if cur == bFalse {
		b.hits++
		return Unsat, nil
	}
	if !pure {
		return Unknown, nil
	}
	b.hits++
	return Sat, b.model(cur)
}

func (b *bdd) model(e bEdge) *Model {
	m := b.c.NewModel()
	m.vals = make([]uint64, len(b.c.vars))
	for _, v := range b.c.vars {
		if v.rng {
			m.vals[v.idx] = uint64(v.lo) & mask(v.w)
		}
	}
	for e != bTrue {
		if e == bFalse {
			panic(fmt.Sprint("bdd model"))
		}
		n := &b.nodes[e>>1]
		for i, k := range n.kids {
			if k^e&1 != bFalse {
				m.vals[n.v] = uint64(i)
				e = k ^ e&1
				break
			}
		}
	}
	return m
}
