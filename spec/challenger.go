package spec

// chal is Plonky2's Challenger: overwrite-mode duplex sponge of width 12 and rate 8.
type chal struct {
	state   []N
	in, out []N
}

func newChal() *chal {
	c := &chal{}
	for i := 0; i < 12; i++ {
		c.state = append(c.state, C(0))
	}
	return c
}

func (c *chal) duplex() {
	s := append([]N{}, c.state...)
	for i, x := range c.in {
		s[i] = Mod(x)
	}
	c.in = nil
	c.state = pGL(s)
	c.out = append([]N{}, c.state[:8]...)
}

func (c *chal) observe(xs ...N) {
	for _, x := range xs {
		c.out = nil
		c.in = append(c.in, x)
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}

func (c *chal) observeE(es ...E) {
	for _, e := range es {
		c.observe(e[0], e[1])
	}
}

func (c *chal) observeBN(hs ...N) {
	for _, h := range hs {
		c.observe(vecBN(h)...)
	}
}

func (c *chal) get() N {
	if len(c.in) > 0 || len(c.out) == 0 {
		c.duplex()
	}
	x := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return x
}

func (c *chal) getN(n int) []N {
	var r []N
	for i := 0; i < n; i++ {
		r = append(r, c.get())
	}
	return r
}

func (c *chal) getE() E {
	a := c.get()
	b := c.get()
	return E{a, b}
}

// friCh are the challenges of the FRI protocol.
type friCh struct {
	alpha   E
	betas   []E
	pow     N
	indices []N
}

type allCh struct {
	betas, gammas, alphas []N
	zeta                  E
	fri                   friCh
}

func (c *chal) fri(caps [][]N, final []E, pow N, queries int) friCh {
	var r friCh
	r.alpha = c.getE()
	for _, cp := range caps {
		c.observeBN(cp...)
		r.betas = append(r.betas, c.getE())
	}
	c.observeE(final...)
	c.observe(pow)
	r.pow = c.get()
	r.indices = c.getN(queries)
	return r
}

// transcript is the Fiat-Shamir transcript of Plonky2's verifier.
func transcript(s shape, p proofN, pih []N, v vdN) allCh {
	c := newChal()
	var r allCh
	c.observeBN(v.digest)
	c.observe(pih...)
	c.observeBN(p.wiresCap...)
	r.betas = c.getN(s.challenges)
	r.gammas = c.getN(s.challenges)
	c.observeBN(p.zsCap...)
	r.alphas = c.getN(s.challenges)
	c.observeBN(p.quoCap...)
	r.zeta = c.getE()
	c.observeE(p.constants...)
	c.observeE(p.sigmas...)
	c.observeE(p.wires...)
	c.observeE(p.zs...)
	c.observeE(p.pps...)
	c.observeE(p.quos...)
	c.observeE(p.zsNext...)
	r.fri = c.fri(p.commitCaps, p.final, p.pow, s.queries)
	return r
}

func (a allCh) all() []N {
	var l []N
	l = append(l, a.betas...)
	l = append(l, a.gammas...)
	l = append(l, a.alphas...)
	l = append(l, a.zeta[0], a.zeta[1], a.fri.alpha[0], a.fri.alpha[1], a.fri.pow)
	for _, b := range a.fri.betas {
		l = append(l, b[0], b[1])
	}
	l = append(l, a.fri.indices...)
	return l
}
