package main

// Partial evaluation of string, regular expression and sorting functions of the
// standard library on constant arguments.

import (
	"go/types"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var tString = types.Typ[types.String]

// strsOf reads a slice of constant strings.
func (I *Interp) strsOf(v Value) (r []string, ok bool) {
	p, isP := v.(*Poly)
	if !isP {
		return nil, false
	}
	n, ok := I.lenOfValue(p).intConst()
	if !ok || n > 256 {
		return nil, false
	}
	for i := int64(0); i < n; i++ {
		s, ok := I.elemAt(p, constP(i)).strConst()
		if !ok {
			return nil, false
		}
		r = append(r, s)
	}
	return r, true
}

// constSlice allocates a slice with the given elements.
func (I *Interp) constSlice(c *Call, kind string, el types.Type, vs []Value) *Poly {
	n := constP(int64(len(vs)))
	o, idx := I.allocObj("lit"+kind, c.pos, el, true, n, false)
	si := sliceI{o, "", el, Zero, n, idx}
	for i, v := range vs {
		I.store(I.st, si.elem(constP(int64(i))), v)
	}
	return si.poly()
}

func (I *Interp) strSlice(c *Call, kind string, ss []string) Value {
	if ss == nil {
		return nilP()
	}
	var vs []Value
	for _, s := range ss {
		vs = append(vs, strP(s))
	}
	return I.constSlice(c, kind, tString, vs)
}

func (I *Interp) fold(c *Call) []Value {
	if c.fn == nil || c.fn.Pkg() == nil {
		return nil
	}
	switch c.fn.Pkg().Path() {
	case "strings", "regexp", "strconv", "sort", "path/filepath", "path":
	default:
		return nil
	}
	str := func(i int) (string, bool) {
		if i >= len(c.args) {
			return "", false
		}
		p, ok := c.args[i].(*Poly)
		if !ok {
			return "", false
		}
		return p.strConst()
	}
	b := func(x bool) []Value { return []Value{boolP(x)} }
	if c.recv != nil {
		rp, ok := c.recv.(*Poly)
		if !ok {
			return nil
		}
		a := rp.single()
		if a == nil || a.op != "app" || a.name != "regexp.MustCompile" {
			return nil
		}
		pat, ok := a.args[0].(*Poly).strConst()
		s, ok2 := str(0)
		if !ok || !ok2 {
			return nil
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			I.die(true)
		}
		n := -1
		if len(c.args) == 2 && c.fn.Name() != "ReplaceAllString" {
			k, ok := c.p(1).intConst()
			if !ok {
				return nil
			}
			n = int(k)
		}
		switch c.fn.Name() {
		case "FindString":
			return []Value{strP(re.FindString(s))}
		case "MatchString":
			return b(re.MatchString(s))
		case "FindStringSubmatch":
			return []Value{I.strSlice(c, "", re.FindStringSubmatch(s))}
		case "FindAllString":
			return []Value{I.strSlice(c, "", re.FindAllString(s, n))}
		case "FindAllStringSubmatch":
			var vs []Value
			m := re.FindAllStringSubmatch(s, n)
			if m == nil {
				return []Value{nilP()}
			}
			for k, x := range m {
				vs = append(vs, I.strSlice(c, strconv.Itoa(k), x))
			}
			return []Value{I.constSlice(c, "", types.NewSlice(tString), vs)}
		case "FindStringIndex":
			return []Value{I.intSlice(c, "", re.FindStringIndex(s))}
		case "FindAllStringIndex":
			var vs []Value
			m := re.FindAllStringIndex(s, n)
			if m == nil {
				return []Value{nilP()}
			}
			for k, x := range m {
				vs = append(vs, I.intSlice(c, strconv.Itoa(k), x))
			}
			return []Value{I.constSlice(c, "", types.NewSlice(types.Typ[types.Int]), vs)}
		case "ReplaceAllString":
			if d, ok := str(1); ok {
				return []Value{strP(re.ReplaceAllString(s, d))}
			}
		}
		return nil
	}
	switch c.name {
	case "regexp.QuoteMeta":
		if x, ok := str(0); ok {
			return []Value{strP(regexp.QuoteMeta(x))}
		}
		return nil
	case "regexp.MatchString":
		p, ok := str(0)
		x, ok2 := str(1)
		if !ok || !ok2 {
			return nil
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return nil
		}
		return []Value{boolP(re.MatchString(x)), nilP()}
	case "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune", "strings.LastIndexByte":
		x, ok := str(0)
		k, ok2 := c.p(1).intConst()
		if !ok || !ok2 {
			return nil
		}
		switch c.fn.Name() {
		case "IndexByte":
			return []Value{constP(int64(strings.IndexByte(x, byte(k))))}
		case "LastIndexByte":
			return []Value{constP(int64(strings.LastIndexByte(x, byte(k))))}
		case "IndexRune":
			return []Value{constP(int64(strings.IndexRune(x, rune(k))))}
		}
		return b(strings.ContainsRune(x, rune(k)))
	case "strings.IndexAny":
		x, ok := str(0)
		y, ok2 := str(1)
		if !ok || !ok2 {
			return nil
		}
		return []Value{constP(int64(strings.IndexAny(x, y)))}
	case "sort.Strings":
		ss, ok := I.strsOf(c.args[0])
		if !ok {
			return nil
		}
		sort.Strings(ss)
		for i, s := range ss {
			I.storeL(I.elemLvals(c.p(0), constP(int64(i))), strP(s))
		}
		return []Value{}
	case "sort.Ints", "sort.Float64s":
		p := c.p(0)
		a := p.single()
		if a == nil || a.op != "slice" {
			return nil
		}
		n, ok := I.sliceInfo(a).ln.intConst()
		if !ok || n > 8 {
			return nil
		}
		v := make([]*Poly, n)
		for i := range v {
			v[i], ok = I.loadL(I.elemLvals(p, constP(int64(i)))).(*Poly)
			if !ok {
				return nil
			}
		}
		for i := 1; i < len(v); i++ {
			for j := i; j > 0; j-- {
				v[j-1], v[j] = minP(v[j-1], v[j]), maxP(v[j-1], v[j])
			}
		}
		for i := range v {
			I.storeL(I.elemLvals(p, constP(int64(i))), v[i])
		}
		return []Value{}
	case "strings.Join":
		ss, ok := I.strsOf(c.args[0])
		d, ok2 := str(1)
		if ok && ok2 {
			return []Value{strP(strings.Join(ss, d))}
		}
		return nil
	}
	if c.name == "path/filepath.Join" || c.name == "path.Join" {
		ss, ok := I.strsOf(c.args[0])
		if ok {
			return []Value{strP(filepath.Join(ss...))}
		}
		return nil
	}
	s, ok := str(0)
	if !ok {
		return nil
	}
	switch c.name {
	case "path/filepath.Base", "path.Base":
		return []Value{strP(filepath.Base(s))}
	case "path/filepath.Dir", "path.Dir":
		return []Value{strP(filepath.Dir(s))}
	case "path/filepath.Ext", "path.Ext":
		return []Value{strP(filepath.Ext(s))}
	case "path/filepath.Clean", "path.Clean":
		return []Value{strP(filepath.Clean(s))}
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return []Value{strP(s)}
	case "strings.Title":
		return []Value{strP(strings.Title(s))}
	case "strconv.Quote":
		return []Value{strP(strconv.Quote(s))}
	case "strings.Repeat":
		if n, ok := c.p(1).intConst(); ok && n >= 0 && n < 10000 {
			return []Value{strP(strings.Repeat(s, int(n)))}
		}
		return nil
	case "strings.TrimSpace":
		return []Value{strP(strings.TrimSpace(s))}
	case "strings.ToLower":
		return []Value{strP(strings.ToLower(s))}
	case "strings.ToUpper":
		return []Value{strP(strings.ToUpper(s))}
	case "strings.Fields":
		return []Value{I.strSlice(c, "", strings.Fields(s))}
	case "strconv.ParseFloat":
		bits, ok := c.p(1).intConst()
		if !ok {
			return nil
		}
		f, err := strconv.ParseFloat(s, int(bits))
		if bits == 32 && err == nil && !math.IsInf(f, 0) {
			return []Value{ratP(new(big.Rat).SetFloat64(f)), nilP()}
		}
		if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
			return nil
		}
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			r = new(big.Rat).SetFloat64(f)
		}
		return []Value{ratP(r), nilP()}
	case "strconv.Atoi":
		n, err := strconv.Atoi(s)
		if err != nil {
			return nil
		}
		return []Value{constP(int64(n)), nilP()}
	}
	d, ok := str(1)
	if !ok {
		return nil
	}
	switch c.name {
	case "strings.Split":
		return []Value{I.strSlice(c, "", strings.Split(s, d))}
	case "strings.Contains":
		return b(strings.Contains(s, d))
	case "strings.ContainsAny":
		return b(strings.ContainsAny(s, d))
	case "strings.HasPrefix":
		return b(strings.HasPrefix(s, d))
	case "strings.HasSuffix":
		return b(strings.HasSuffix(s, d))
	case "strings.Index":
		return []Value{constP(int64(strings.Index(s, d)))}
	case "strings.LastIndex":
		return []Value{constP(int64(strings.LastIndex(s, d)))}
	case "strings.Count":
		return []Value{constP(int64(strings.Count(s, d)))}
	case "strings.Trim":
		return []Value{strP(strings.Trim(s, d))}
	case "strings.TrimPrefix":
		return []Value{strP(strings.TrimPrefix(s, d))}
	case "strings.TrimSuffix":
		return []Value{strP(strings.TrimSuffix(s, d))}
	case "strings.TrimLeft":
		return []Value{strP(strings.TrimLeft(s, d))}
	case "strings.TrimRight":
		return []Value{strP(strings.TrimRight(s, d))}
	case "strings.SplitN":
		if n, ok := c.p(2).intConst(); ok {
			return []Value{I.strSlice(c, "", strings.SplitN(s, d, int(n)))}
		}
		return nil
	case "strings.SplitAfter":
		return []Value{I.strSlice(c, "", strings.SplitAfter(s, d))}
	case "strings.Compare":
		return []Value{constP(int64(strings.Compare(s, d)))}
	case "strings.Cut":
		x, y, f := strings.Cut(s, d)
		return []Value{strP(x), strP(y), boolP(f)}
	case "strings.EqualFold":
		return b(strings.EqualFold(s, d))
	}
	return nil
}

func (I *Interp) intSlice(c *Call, kind string, xs []int) Value {
	if xs == nil {
		return nilP()
	}
	var vs []Value
	for _, x := range xs {
		vs = append(vs, constP(int64(x)))
	}
	return I.constSlice(c, kind, types.Typ[types.Int], vs)
}

func boolP(x bool) *Poly {
	if x {
		return One
	}
	return Zero
}
