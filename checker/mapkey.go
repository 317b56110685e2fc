package main

// Iteration over a map of the caller: its keys in some fixed order. A map is
// given by the lambda of its presence table M:
//   maplen(M)       number of keys
//   mapkey<kind>(M,k)  k-th key
//   keypos(M,x)     position of key x, for keys that are present

import "strings"

func mapKeyAt(k Kind, m, i Node) *Poly {
	nm := "mapkey"
	if k == KInt {
		nm = "mapkeyI"
	}
	return lifted([]Node{m, i}, func(n []Node) *Poly {
		if p, ok := n[1].(*Poly); ok {
			if a := p.single(); a != nil && a.op == "app" && a.name == "keypos" && a.args[0] == n[0] {
				return a.args[1].(*Poly)
			}
		}
		return atomP(rawAtom("app", nm, k, n...))
	})
}

func mapKeyPos(m, x Node) *Poly {
	return lifted([]Node{m, x}, func(n []Node) *Poly {
		a := rawAtom("app", "keypos", KInt, n...)
		a.nonneg = true
		a.lo = Zero
		a.hi = sub(mapLenOf(n[0]), One)
		return atomP(a)
	})
}

func mapLenOf(m Node) *Poly { return appKP("maplen", KInt, nil, true, m) }

func init() {
	reapply["mapkey"] = func(n []Node) *Poly { return mapKeyAt(KOther, n[0], n[1]) }
	reapply["mapkeyI"] = func(n []Node) *Poly { return mapKeyAt(KInt, n[0], n[1]) }
	reapply["keypos"] = func(n []Node) *Poly { return mapKeyPos(n[0], n[1]) }
}

// firstKey resolves the search for a key: the first k below maplen(M) with
// mapkey(M,k) == x.
func firstKey(k *Atom, n, body *Poly) *Poly {
	na, ba := n.single(), body.single()
	if na == nil || ba == nil || na.op != "app" || na.name != "maplen" || ba.op != "eq" {
		return nil
	}
	p := ba.args[0].(*Poly)
	for _, t := range p.t {
		for _, f := range t.m.f {
			a := f.a
			if a.op != "app" || !strings.HasPrefix(a.name, "mapkey") || a.args[0] != na.args[0] || a.args[1] != Node(atomP(k)) {
				continue
			}
			A, B, ok := linIn(p, a)
			if !ok || occurs(B, k) || !(A == One || A == neg(One)) {
				return nil
			}
			x := neg(mul2(A, B))
			lam := na.args[0].(*Lam)
			has, ok := lam.open(x).(*Poly)
			if !ok {
				return nil
			}
			return ite(has, mapKeyPos(lam, x), n)
		}
	}
	return nil
}

// mentions reports whether an application with the given name prefix occurs.
func mentions(x Node, pre string, seen map[Node]bool) bool {
	if seen[x] {
		return false
	}
	seen[x] = true
	switch x := x.(type) {
	case *Poly:
		for _, t := range x.t {
			for _, f := range t.m.f {
				if f.a.op == "app" && strings.HasPrefix(f.a.name, pre) {
					return true
				}
				for _, y := range f.a.args {
					if mentions(y, pre, seen) {
						return true
					}
				}
			}
		}
	case *Lam:
		return mentions(x.body, pre, seen)
	case *Tup:
		for _, y := range x.x {
			if mentions(y, pre, seen) {
				return true
			}
		}
	}
	return false
}

// appNames collects the functions with a prefix that occur in a value.
func appNames(x Node, pre string, out map[string]bool, seen map[Node]bool) {
	if seen[x] {
		return
	}
	seen[x] = true
	switch x := x.(type) {
	case *Poly:
		for _, t := range x.t {
			for _, f := range t.m.f {
				if f.a.op == "app" && strings.Contains(f.a.name, pre) {
					out[f.a.name] = true
				}
				for _, y := range f.a.args {
					appNames(y, pre, out, seen)
				}
			}
		}
	case *Lam:
		appNames(x.body, pre, out, seen)
	case *Tup:
		for _, y := range x.x {
			appNames(y, pre, out, seen)
		}
	}
}
