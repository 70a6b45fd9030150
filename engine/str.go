package main

import "strconv"

import "strings"

// Str is a Go string value: a sequence of segments.
// conc strings are kept as Go strings; everything else is a list of segs.
type Str struct {
	isConc bool
	conc   string
	segs   []seg
	quoted *Str // set when this is strconv.Quote(quoted)
}

type segKind uint8

const (
	segBytes segKind = iota // fixed-length symbolic bytes
	segAtom                 // symbolic length
	segItoa                 // decimal rendering of a symbolic integer
)

// seg is one piece of a string.
type seg struct {
	kind  segKind
	bytes []*Term // segBytes: the bytes; segAtom: capacity bytes, those at index>=len are 0
	n     *Term   // segAtom: length (64 bit, <= len(bytes)); segItoa: the integer (64 bit, signed)
}

func cstr(s string) *Str { return &Str{isConc: true, conc: s} }

// norm merges adjacent fixed segments and detects concrete strings.
func (c *Ctx) mkStr(segs []seg) *Str {
	var out []seg
	for _, g := range segs {
		if g.kind == segAtom && g.n.isConst() {
			g = seg{kind: segBytes, bytes: g.bytes[:g.n.val]}
		}
		if g.kind == segItoa && g.n.isConst() {
			g = seg{kind: segBytes, bytes: c.bytesOf(itoa64(int64(g.n.val)))}
		}
		if g.kind == segBytes {
			if len(g.bytes) == 0 {
				continue
			}
			if len(out) > 0 && out[len(out)-1].kind == segBytes {
				p := out[len(out)-1].bytes
				nb := make([]*Term, 0, len(p)+len(g.bytes))
				nb = append(append(nb, p...), g.bytes...)
				out[len(out)-1].bytes = nb
				continue
			}
		}
		out = append(out, g)
	}
	if len(out) == 0 {
		return cstr("")
	}
	if len(out) == 1 && out[0].kind == segBytes {
		allc := true
		for _, b := range out[0].bytes {
			if !b.isConst() {
				allc = false
				break
			}
		}
		if allc {
			bs := make([]byte, len(out[0].bytes))
			for i, b := range out[0].bytes {
				bs[i] = byte(b.val)
			}
			return cstr(string(bs))
		}
	}
	return &Str{segs: out}
}

func itoa64(v int64) string {
	neg := v < 0
	u := uint64(v)
	if neg {
		u = -u
	}
	var b [24]byte
	i := len(b)
	for {
		i--
		b[i] = byte('0' + u%10)
		u /= 10
		if u == 0 {
			break
		}
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func (c *Ctx) bytesOf(s string) []*Term {
	r := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = c.Const(8, uint64(s[i]))
	}
	return r
}

func (c *Ctx) segsOf(s *Str) []seg {
	if s.isConc {
		if s.conc == "" {
			return nil
		}
		return []seg{{kind: segBytes, bytes: c.bytesOf(s.conc)}}
	}
	return s.segs
}

func (c *Ctx) fixedStr(b []*Term) *Str { return c.mkStr([]seg{{kind: segBytes, bytes: b}}) }

// fixed returns the bytes if the length is concrete.
func (c *Ctx) fixed(s *Str) ([]*Term, bool) {
	if s.isConc {
		return c.bytesOf(s.conc), true
	}
	if len(s.segs) == 1 && s.segs[0].kind == segBytes {
		return s.segs[0].bytes, true
	}
	return nil, false
}

func (c *Ctx) concat(a, b *Str) *Str {
	if a.isConc && b.isConc {
		return cstr(a.conc + b.conc)
	}
	if a.isConc && a.conc == "" {
		return b
	}
	if b.isConc && b.conc == "" {
		return a
	}
	sa, sb := c.segsOf(a), c.segsOf(b)
	segs := make([]seg, 0, len(sa)+len(sb))
	return c.mkStr(append(append(segs, sa...), sb...))
}

// strLen is the length term; nil if it cannot be expressed (itoa pieces).
func (c *Ctx) strLen(s *Str) *Term {
	if s.isConc {
		return c.Const(64, uint64(len(s.conc)))
	}
	n := c.Const(64, 0)
	for _, g := range s.segs {
		switch g.kind {
		case segBytes:
			n = c.Bin(OpAdd, n, c.Const(64, uint64(len(g.bytes))))
		case segAtom:
			n = c.Bin(OpAdd, n, g.n)
		default:
			return nil
		}
	}
	return n
}

// flatten turns a rope of bytes and atoms into one atom (nil if it contains itoa pieces or is too large).
func (c *Ctx) flatten(s *Str) *seg {
	segs := c.segsOf(s)
	cur := seg{kind: segAtom, n: c.Const(64, 0)}
	for _, g := range segs {
		if g.kind == segItoa {
			return nil
		}
		gn := g.n
		if g.kind == segBytes {
			gn = c.Const(64, uint64(len(g.bytes)))
		}
		if cur.n.isConst() {
			nb := append([]*Term(nil), cur.bytes[:cur.n.val]...)
			nb = append(nb, g.bytes...)
			cur = seg{kind: segAtom, n: c.Bin(OpAdd, cur.n, gn), bytes: nb}
			continue
		}
		total := len(cur.bytes) + len(g.bytes)
		if total > 96 {
			return nil
		}
		nb := make([]*Term, total)
		for k := 0; k < total; k++ {
			// byte k is cur[k] if k<len(cur), else g[k-len(cur)]
			v := c.Const(8, 0)
			for l := 0; l <= len(cur.bytes); l++ {
				if k-l >= 0 && k-l < len(g.bytes) && l <= k {
					v = c.Ite(c.Eq(cur.n, c.Const(64, uint64(l))), g.bytes[k-l], v)
				}
			}
			if k < len(cur.bytes) {
				v = c.Ite(c.cmp(OpUlt, c.Const(64, uint64(k)), cur.n), cur.bytes[k], v)
			}
			nb[k] = v
		}
		cur = seg{kind: segAtom, n: c.Bin(OpAdd, cur.n, gn), bytes: nb}
	}
	return &cur
}

func sameSeg(a, b seg) bool {
	if a.kind != b.kind || len(a.bytes) != len(b.bytes) || a.n != b.n {
		return false
	}
	for i := range a.bytes {
		if a.bytes[i] != b.bytes[i] {
			return false
		}
	}
	return true
}

// strEq is the equality of two strings as a term; nil if not expressible.
func (c *Ctx) strEq(a, b *Str) *Term {
	if a == b {
		return c.T
	}
	if a.isConc && b.isConc {
		return c.Bool(a.conc == b.conc)
	}
	if a.quoted != nil || b.quoted != nil { // Quote is injective
		x, y := a, b
		if x.quoted == nil {
			x, y = y, x
		}
		if y.quoted != nil {
			return c.strEq(x.quoted, y.quoted)
		}
		if y.isConc {
			u, err := strconv.Unquote(y.conc)
			if err != nil || strconv.Quote(u) != y.conc {
				return c.F
			}
			return c.strEq(x.quoted, cstr(u))
		}
	}
	sa := append([]seg(nil), c.segsOf(a)...)
	sb := append([]seg(nil), c.segsOf(b)...)
	var conj []*Term
	// strip equal pieces and bytes from the front, then from the back
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[0], sb[0]
		if sameSeg(x, y) {
			sa, sb = sa[1:], sb[1:]
			continue
		}
		if x.kind == segBytes && y.kind == segBytes {
			n := len(x.bytes)
			if len(y.bytes) < n {
				n = len(y.bytes)
			}
			for i := 0; i < n; i++ {
				e := c.Eq(x.bytes[i], y.bytes[i])
				if e.isFalse() {
					return c.F
				}
				conj = append(conj, e)
			}
			sa, sb = dropFront(sa, n), dropFront(sb, n)
			continue
		}
		break
	}
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[len(sa)-1], sb[len(sb)-1]
		if sameSeg(x, y) {
			sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
			continue
		}
		if x.kind == segBytes && y.kind == segBytes {
			n := len(x.bytes)
			if len(y.bytes) < n {
				n = len(y.bytes)
			}
			for i := 1; i <= n; i++ {
				e := c.Eq(x.bytes[len(x.bytes)-i], y.bytes[len(y.bytes)-i])
				if e.isFalse() {
					return c.F
				}
				conj = append(conj, e)
			}
			sa, sb = dropBack(sa, n), dropBack(sb, n)
			continue
		}
		break
	}
	switch {
	case len(sa) == 0 && len(sb) == 0:
		return c.And(conj...)
	case len(sa) == 0 || len(sb) == 0:
		r := sa
		if len(sa) == 0 {
			r = sb
		}
		for _, g := range r {
			if g.kind != segAtom {
				return c.F
			}
			conj = append(conj, c.Eq(g.n, c.Const(64, 0)))
		}
		return c.And(conj...)
	case len(sa) == 1 && len(sb) == 1 && sa[0].kind == segItoa && sb[0].kind == segItoa:
		conj = append(conj, c.Eq(sa[0].n, sb[0].n))
		return c.And(conj...)
	}
	if t, ok := c.segwiseEq(sa, sb); ok {
		conj = append(conj, t)
		return c.And(conj...)
	}
	fa, fb := c.flatten(&Str{segs: sa}), c.flatten(&Str{segs: sb})
	if fa == nil || fb == nil {
		return nil
	}
	plain := len(conj) == 0 && len(sa) == 1 && len(sb) == 1
	conj = append(conj, c.Eq(fa.n, fb.n))
	n := len(fa.bytes)
	if len(fb.bytes) > n {
		n = len(fb.bytes)
	}
	zero := c.Const(8, 0)
	for i := 0; i < n; i++ {
		x, y := zero, zero
		if i < len(fa.bytes) {
			x = fa.bytes[i]
		}
		if i < len(fb.bytes) {
			y = fb.bytes[i]
		}
		conj = append(conj, c.Eq(x, y))
	}
	t := c.And(conj...)
	if plain && t.op == OpAnd {
		c.eqOf[t] = [2]eqKey{c.keyOf(sa[0]), c.keyOf(sb[0])}
	}
	return t
}

// eqKey identifies a string in the equality classes of a path: "c" and the text,
// or "s" and the terms it is made of.
type eqKey string

func (c *Ctx) keyOf(g seg) eqKey {
	conc := g.kind == segBytes
	out := []byte{'c'}
	for _, b := range g.bytes {
		if b.op != OpConst {
			conc = false
			break
		}
		out = append(out, byte(b.val))
	}
	if conc {
		return eqKey(out)
	}
	out = []byte{'s'}
	id := func(t *Term) { out = append(out, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24)) }
	for _, b := range g.bytes {
		id(b)
	}
	if g.kind == segAtom {
		id(g.n)
		out = append(out, 'a')
	}
	return eqKey(out)
}

// segwiseEq handles ropes that become comparable piecewise because their itoa
// pieces are delimited by identical non-digit bytes: itoa, sep, itoa, sep, ...
func (c *Ctx) segwiseEq(sa, sb []seg) (*Term, bool) {
	if len(sa) != len(sb) {
		return nil, false
	}
	var conj []*Term
	for i := range sa {
		x, y := sa[i], sb[i]
		if x.kind != y.kind {
			return nil, false
		}
		switch x.kind {
		case segItoa:
			// the piece after must start with a fixed non-digit in both, or end the string
			if i+1 < len(sa) {
				if sa[i+1].kind != segBytes || sb[i+1].kind != segBytes {
					return nil, false
				}
				if !nonDigit(sa[i+1].bytes[0]) || !nonDigit(sb[i+1].bytes[0]) {
					return nil, false
				}
			}
			conj = append(conj, c.Eq(x.n, y.n))
		case segBytes:
			if len(x.bytes) != len(y.bytes) {
				return nil, false
			}
			for k := range x.bytes {
				conj = append(conj, c.Eq(x.bytes[k], y.bytes[k]))
			}
		default:
			return nil, false
		}
	}
	return c.And(conj...), true
}

func nonDigit(t *Term) bool {
	return t.isConst() && (t.val < '0' || t.val > '9') && t.val != '-'
}

func dropFront(s []seg, n int) []seg {
	g := s[0]
	if n == len(g.bytes) {
		return s[1:]
	}
	r := append([]seg(nil), s...)
	r[0] = seg{kind: segBytes, bytes: g.bytes[n:]}
	return r
}

func dropBack(s []seg, n int) []seg {
	g := s[len(s)-1]
	if n == len(g.bytes) {
		return s[:len(s)-1]
	}
	r := append([]seg(nil), s...)
	r[len(r)-1] = seg{kind: segBytes, bytes: g.bytes[:len(g.bytes)-n]}
	return r
}

// evalStr is the value of s under the installed model.
func (c *Ctx) evalStr(s *Str) string {
	if s.isConc {
		return s.conc
	}
	var sb strings.Builder
	for _, g := range s.segs {
		switch g.kind {
		case segBytes:
			for _, b := range g.bytes {
				sb.WriteByte(byte(c.Eval(b)))
			}
		case segAtom:
			n := int(c.Eval(g.n))
			for i := 0; i < n && i < len(g.bytes); i++ {
				sb.WriteByte(byte(c.Eval(g.bytes[i])))
			}
		case segItoa:
			sb.WriteString(itoa64(int64(c.Eval(g.n))))
		}
	}
	return sb.String()
}

// iteStr merges two strings under a condition (nil if not worthwhile).
func (c *Ctx) iteStr(cond *Term, a, b *Str) *Str {
	if a == b {
		return a
	}
	if a.isConc && b.isConc && a.conc == b.conc {
		return a
	}
	if sa, sb := c.segsOf(a), c.segsOf(b); len(sa) == len(sb) {
		same := true
		for i := range sa {
			if !sameSeg(sa[i], sb[i]) {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	fa, fb := c.flatten(a), c.flatten(b)
	if fa == nil || fb == nil || len(fa.bytes) > 24 || len(fb.bytes) > 24 {
		return nil
	}
	n := len(fa.bytes)
	if len(fb.bytes) > n {
		n = len(fb.bytes)
	}
	zero := c.Const(8, 0)
	bs := make([]*Term, n)
	for i := range bs {
		x, y := zero, zero
		if i < len(fa.bytes) {
			x = fa.bytes[i]
		}
		if i < len(fb.bytes) {
			y = fb.bytes[i]
		}
		bs[i] = c.Ite(cond, x, y)
	}
	return c.mkStr([]seg{{kind: segAtom, n: c.Ite(cond, fa.n, fb.n), bytes: bs}})
}
