package main

import "strings"

// textBuilder evaluates strings.Builder: its text is kept in the field buf.
func (I *Interp) textBuilder(c *Call) ([]Value, bool) {
	isB := func(v Value) *Poly {
		p, ok := v.(*Poly)
		if !ok {
			return nil
		}
		p = unboxed(p)
		if a := p.single(); a == nil || a.op != "ref" {
			return nil
		}
		return p
	}
	var b *Poly
	switch {
	case strings.HasPrefix(c.name, "(*strings.Builder)."):
		b = isB(c.recv)
	case c.name == "fmt.Fprintf" || c.name == "fmt.Fprint" || c.name == "io.WriteString":
		p, ok := c.args[0].(*Poly)
		if !ok {
			return nil, false
		}
		a := p.single()
		if a != nil && a.op == "box" && strings.HasSuffix(a.name, "*strings.Builder") || a != nil && a.op == "ref" && a.pay.(*refPay).typ.String() == "strings.Builder" {
			b = isB(p)
		}
	}
	if b == nil {
		return nil, false
	}
	ls := I.ptrLvals(b)
	for i := range ls {
		l := &ls[i].l
		*l = Loc{l.o, l.path + ".buf", l.idx, tString}
	}
	text := func() *Poly {
		p, ok := I.loadL(ls).(*Poly)
		if !ok {
			return strP("")
		}
		if a := p.single(); p == Zero || a != nil && a.op == "nil" {
			return strP("")
		}
		return p
	}
	add := func(p *Poly) []Value {
		I.storeL(ls, concat(text(), p))
		switch c.sig.Results().Len() {
		case 0:
			return []Value{}
		case 1:
			return []Value{nilP()}
		}
		return []Value{appK("strlen", KInt, p), nilP()}
	}
	switch c.fn.Name() {
	case "WriteString":
		if c.name == "io.WriteString" {
			return add(c.p(1)), true
		}
		return add(c.p(0)), true
	case "WriteByte", "WriteRune":
		if n, ok := c.p(0).intConst(); ok && n < 128 {
			return add(strP(string(rune(n)))), true
		}
		return add(appK("chr", KOther, c.p(0))), true
	case "Fprintf":
		c2 := *c
		c2.args = c.args[1:]
		return add(I.sprintf(&c2)), true
	case "String":
		return []Value{text()}, true
	case "Len":
		if s, ok := text().strConst(); ok {
			return []Value{constP(int64(len(s)))}, true
		}
		return []Value{appK("strlen", KInt, text())}, true
	case "Reset":
		I.storeL(ls, strP(""))
		return []Value{}, true
	case "Grow":
		return []Value{}, true
	}
	return nil, false
}
