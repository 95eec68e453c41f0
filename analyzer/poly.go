package main

// Entailment in the domain of convex polyhedra: does a conjunction of linear
// inequalities over the rationals imply another one. Multipliers are looked
// for with the simplex method on exact fractions; when numbers grow too large
// the answer is no.

type frac struct{ n, d int64 }

type polyOverflow struct{}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

const fracMax = 1 << 30

func mkFrac(n, d int64) frac {
	if n == 0 {
		return frac{0, 1}
	}
	if g := gcd64(n, d); g > 1 {
		n, d = n/g, d/g
	}
	if d < 0 {
		n, d = -n, -d
	}
	if n > fracMax || n < -fracMax || d > fracMax {
		panic(polyOverflow{})
	}
	return frac{n, d}
}

func (a frac) sub(b frac) frac {
	if b.n == 0 {
		return a
	}
	if a.d == 1 && b.d == 1 {
		return mkFrac(a.n-b.n, 1)
	}
	return mkFrac(a.n*b.d-b.n*a.d, a.d*b.d)
}
func (a frac) mul(b frac) frac {
	if a.n == 0 || b.n == 0 {
		return frac{0, 1}
	}
	g1, g2 := gcd64(a.n, b.d), gcd64(b.n, a.d)
	return mkFrac((a.n/g1)*(b.n/g2), (a.d/g2)*(b.d/g1))
}
func (a frac) div(b frac) frac  { return a.mul(mkFrac(b.d, b.n)) }
func (a frac) less(b frac) bool { return a.n*b.d < b.n*a.d }

// polyEntails: the facts (each <= 0) imply goal <= 0, given that all terms are integers.
func polyEntails(goal lin, facts []lin) (ok bool) { return polyCheck(goal, facts, false) }

// polyEmpty: the facts contradict each other.
func polyEmpty(facts []lin) bool { return polyCheck(lin{nil, 1}, facts, true) }

func polyCheck(goal lin, facts []lin, all bool) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(polyOverflow); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	// only facts connected to the goal matter
	atoms := map[*Term]int{}
	var order []*Term
	seen := func(a *Term) {
		if _, ok := atoms[a]; !ok {
			atoms[a] = len(order)
			order = append(order, a)
		}
	}
	for _, a := range sortedAtoms(goal) {
		seen(a)
	}
	used := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			hit := all || len(f.m) == 0
			for a := range f.m {
				if _, ok := atoms[a]; ok {
					hit = true
				}
			}
			if !hit {
				continue
			}
			used[i], changed = true, true
			for _, a := range sortedAtoms(f) {
				seen(a)
			}
		}
	}
	var fs []lin
	dup := map[string]bool{}
	for i, f := range facts {
		if used[i] {
			k := linKey(f)
			if !dup[k] {
				dup[k] = true
				fs = append(fs, f)
			}
		}
	}
	rows, cols := len(order), len(fs)
	if rows > 60 || cols > 400 {
		return false
	}
	// min  sum x_i*(-c_i)  with  sum x_i*f_i[a] = goal[a],  x >= 0;
	// artificial variables start as the basis.
	tab := make([][]frac, rows)
	basis := make([]int, rows)
	for r, a := range order {
		t := make([]frac, cols+1)
		b := goal.m[a]
		sg := int64(1)
		if b < 0 {
			sg = -1
		}
		for c, f := range fs {
			t[c] = mkFrac(sg*f.m[a], 1)
		}
		t[cols] = mkFrac(sg*b, 1)
		tab[r] = t
		basis[r] = -1
	}
	cost := make([]frac, cols+1) // phase 1: reduced costs
	for c := range cost {
		s := frac{0, 1}
		for r := range tab {
			s = s.sub(tab[r][c])
		}
		cost[c] = s
	}
	obj := make([]frac, cols+1) // phase 2
	for c, f := range fs {
		obj[c] = mkFrac(-f.c, 1)
	}
	obj[cols] = frac{0, 1}
	pivot := func(r, c int) {
		p := tab[r][c]
		for k := range tab[r] {
			tab[r][k] = tab[r][k].div(p)
		}
		elim := func(t []frac) {
			q := t[c]
			if q.n == 0 {
				return
			}
			for k := range t {
				t[k] = t[k].sub(q.mul(tab[r][k]))
			}
		}
		for k := range tab {
			if k != r {
				elim(tab[k])
			}
		}
		elim(cost)
		elim(obj)
		basis[r] = c
	}
	run := func(z []frac, bound func() bool) (bounded bool) {
		for step := 0; step < 600; step++ {
			if bound != nil && bound() {
				return true
			}
			c := -1
			for k := 0; k < cols; k++ {
				if z[k].n < 0 {
					c = k
					break
				}
			}
			if c < 0 {
				return true
			}
			r := -1
			for k := range tab {
				if tab[k][c].n <= 0 {
					// an artificial variable at zero leaves at once
					if basis[k] < 0 && tab[k][cols].n == 0 && tab[k][c].n < 0 {
						r = k
						break
					}
					continue
				}
				if r < 0 {
					r = k
					continue
				}
				a, b := tab[k][cols].div(tab[k][c]), tab[r][cols].div(tab[r][c])
				if a.less(b) || !b.less(a) && basis[k] < basis[r] {
					r = k
				}
			}
			if r < 0 {
				return false
			}
			pivot(r, c)
		}
		panic(polyOverflow{})
	}
	run(cost, nil)
	// the artificial variables must be zero
	for r := range tab {
		if basis[r] < 0 && tab[r][cols].n != 0 {
			return false
		}
	}
	// the objective is -obj[cols]; it must get below 1 - goal.c
	good := func() bool {
		v := obj[cols] // = -(current value)
		// goal.c + value < 1
		return mkFrac(1-goal.c, 1).sub(frac{-v.n, v.d}).n > 0
	}
	if !run(obj, good) {
		return true
	}
	return good()
}
