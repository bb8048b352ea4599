package main

// Branches on a single byte. Where a condition, and every condition of the path
// on the same byte, speak of that byte alone, whether it can hold is read off
// the byte's 256 values; the rest of the path's conditions play no part. This
// only prunes and splits paths. Assertions go to the solver.

type byteDom struct {
	ok    [256]bool
	mixed bool // a condition relates the byte to something else
}

type varSet struct {
	v    *Term // the only variable, if n == 1
	n    int   // 0, 1, or 2 for more
	many []*Term
}

func (p *Path) varsOf(t *Term) *varSet {
	if s, ok := p.vsets[t]; ok {
		return s
	}
	s := &varSet{}
	switch {
	case t.op == OpConst:
	case t.op == OpVar:
		s.v, s.n = t, 1
	case t.op == OpUF:
		s.n = 3
	default:
		for i := 0; i < int(t.n); i++ {
			a := p.varsOf(t.a[i])
			switch {
			case a.n == 0:
			case s.n == 0:
				s.v, s.n, s.many = a.v, a.n, a.many
			case s.n == 1 && a.n == 1 && a.v == s.v:
			default:
				s = &varSet{n: max(2, s.n, a.n), many: append(append([]*Term(nil), s.all()...), a.all()...)}
				if len(s.many) > 8 {
					s.n, s.many = 3, nil
				}
			}
		}
	}
	if p.vsets == nil {
		p.vsets = map[*Term]*varSet{}
	}
	p.vsets[t] = s
	return s
}

func (s *varSet) all() []*Term {
	if s.n == 1 {
		return []*Term{s.v}
	}
	return s.many
}

func (p *Path) dom(v *Term) *byteDom {
	d := p.doms[v]
	if d == nil {
		d = &byteDom{}
		for i := range d.ok {
			d.ok[i] = true
		}
		if p.doms == nil {
			p.doms = map[*Term]*byteDom{}
		}
		p.doms[v] = d
	}
	return d
}

// feasible decides whether c can hold on this path.
func (p *Path) feasible(c *Term) (Res, Model) {
	s := p.varsOf(c)
	if s.n != 1 || s.v.w != 8 {
		return p.query(c)
	}
	for ; p.domSeen < len(p.pc); p.domSeen++ {
		x := p.pc[p.domSeen]
		xs := p.varsOf(x)
		switch {
		case xs.n == 1 && xs.v.w == 8:
			d := p.dom(xs.v)
			for i := range d.ok {
				if d.ok[i] {
					r, ok := evalTerm(x, Model{xs.v: uint64(i)}, map[*Term]uint64{})
					if !ok {
						d.mixed = true
					} else if r == 0 {
						d.ok[i] = false
					}
				}
			}
		case xs.n == 3:
			p.domMixed = true
		default:
			for _, y := range xs.many {
				if y.w == 8 {
					p.dom(y).mixed = true
				}
			}
		}
	}
	d := p.dom(s.v)
	if d.mixed || p.domMixed {
		return p.query(c)
	}
	for i := range d.ok {
		if !d.ok[i] {
			continue
		}
		r, ok := evalTerm(c, Model{s.v: uint64(i)}, map[*Term]uint64{})
		if !ok {
			return p.query(c)
		}
		if r == 0 {
			continue
		}
		m := make(Model, len(p.model))
		for k, x := range p.model {
			m[k] = x
		}
		m[s.v] = uint64(i)
		p.w.small++
		return Sat, m
	}
	p.w.small++
	return Unsat, nil
}
