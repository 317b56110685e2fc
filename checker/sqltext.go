package main

// Reading of SQL texts: the abstract database of the specifications asks which
// table and columns a statement names and which placeholder belongs to which
// column.

import (
	"strconv"
	"strings"
	"unicode"
)

// sqlCond compares a column with a placeholder (arg >= 0) or a literal.
type sqlCond struct {
	col, op string
	arg     int
	lit     string
}

type sqlStmt struct {
	kind   string // create insert select update delete other
	table  string
	cols   []string          // insert: named columns; create: columns; update: assigned columns; select: expressions
	types  map[string]string // create: declared types
	arg    map[string]int    // column -> placeholder: value (insert, update) or condition (select, delete)
	lit    map[string]string // column -> literal
	where  map[string]int    // column -> placeholder of an equality in a conjunctive condition
	wlit   map[string]string
	conds  [][]sqlCond // the condition: alternatives of conjunctions of comparisons
	odd    bool        // a condition that was not understood
	nargs  int
	uniq   bool // DISTINCT
	order  string
	limit  string
	unions []string // further tables
	bad    string
}

func sqlTokens(s string) []string {
	var r []string
	rs := []rune(s)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '.') {
				j++
			}
			r = append(r, strings.ToLower(string(rs[i:j])))
			i = j
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(rs) && rs[j] != c {
				j++
			}
			if j < len(rs) {
				j++
			}
			t := string(rs[i:j])
			if c != '\'' {
				t = strings.ToLower(strings.Trim(t, "\"`"))
			}
			r = append(r, t)
			i = j
		default:
			r = append(r, string(c))
			i++
		}
	}
	for len(r) > 0 && r[len(r)-1] == ";" {
		r = r[:len(r)-1]
	}
	return r
}

// splitTop splits a token list at commas outside parentheses.
func splitTop(t []string) [][]string {
	var r [][]string
	d := 0
	var cur []string
	for _, x := range t {
		if x == "(" {
			d++
		}
		if x == ")" {
			d--
		}
		if x == "," && d == 0 {
			r = append(r, cur)
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	if len(cur) > 0 {
		r = append(r, cur)
	}
	return r
}

// group returns the tokens inside the parenthesis starting at t[0] and the rest.
func group(t []string) (in, rest []string, ok bool) {
	if len(t) == 0 || t[0] != "(" {
		return nil, t, false
	}
	d := 0
	for i, x := range t {
		if x == "(" {
			d++
		}
		if x == ")" {
			d--
			if d == 0 {
				return t[1:i], t[i+1:], true
			}
		}
	}
	return nil, t, false
}

func indexTok(t []string, w string) int {
	d := 0
	for i, x := range t {
		if x == "(" {
			d++
		}
		if x == ")" {
			d--
		}
		if d == 0 && x == w {
			return i
		}
	}
	return -1
}

func bare(col string) string {
	if i := strings.LastIndexByte(col, '.'); i >= 0 {
		return col[i+1:]
	}
	return col
}

var sqlCache = map[string]*sqlStmt{}

func parseSQL(text string) *sqlStmt {
	if s, ok := sqlCache[text]; ok {
		return s
	}
	s := parseSQL1(text)
	sqlCache[text] = s
	return s
}

func parseSQL1(text string) *sqlStmt {
	t := sqlTokens(text)
	s := &sqlStmt{kind: "other", types: map[string]string{}, arg: map[string]int{}, lit: map[string]string{}, where: map[string]int{}, wlit: map[string]string{}}
	for _, x := range t {
		if x == "?" {
			s.nargs++
		}
	}
	if len(t) == 0 {
		s.bad = "empty statement"
		return s
	}
	n := 0 // placeholders consumed
	count := func(ts []string) (k int) {
		for _, x := range ts {
			if x == "?" {
				k++
			}
		}
		return
	}
	where := func(w []string) {
		s.conds = s.parseCond(w, &n)
		if len(s.conds) == 1 && !s.odd {
			for _, c := range s.conds[0] {
				if c.op == "=" && c.arg >= 0 {
					s.where[c.col] = c.arg
				} else if c.op == "=" {
					s.wlit[c.col] = c.lit
				}
			}
		}
	}
	switch t[0] {
	case "create":
		i := indexTok(t, "table")
		if i < 0 {
			return s
		}
		t = t[i+1:]
		if len(t) > 3 && t[0] == "if" && t[1] == "not" && t[2] == "exists" {
			s.uniq = true
			t = t[3:]
		}
		if len(t) < 2 {
			s.bad = "table"
			return s
		}
		s.kind, s.table = "create", t[0]
		in, _, ok := group(t[1:])
		if !ok {
			s.bad = "columns"
			return s
		}
		for _, c := range splitTop(in) {
			if len(c) == 0 || c[0] == "foreign" || c[0] == "primary" || c[0] == "unique" || c[0] == "check" || c[0] == "constraint" {
				continue
			}
			s.cols = append(s.cols, c[0])
			if len(c) > 1 {
				s.types[c[0]] = c[1]
			}
		}
	case "insert", "replace":
		i := indexTok(t, "into")
		if i < 0 || i+1 >= len(t) {
			s.bad = "insert"
			return s
		}
		s.kind, s.table = "insert", t[i+1]
		t = t[i+2:]
		in, rest, ok := group(t)
		named := false
		if ok {
			for _, c := range splitTop(in) {
				s.cols = append(s.cols, strings.Join(c, ""))
			}
			t = rest
			named = true
		}
		if len(t) == 0 || t[0] != "values" {
			s.bad = "values"
			return s
		}
		in, rest, ok = group(t[1:])
		if !ok || len(rest) > 0 {
			s.bad = "values"
			return s
		}
		vs := splitTop(in)
		if !named {
			s.bad = "columns not named"
		} else if len(vs) != len(s.cols) {
			s.bad = "number of values differs from number of columns"
			return s
		}
		for k, v := range vs {
			if k >= len(s.cols) {
				break
			}
			if len(v) == 1 && v[0] == "?" {
				s.arg[s.cols[k]] = n
			} else {
				s.lit[s.cols[k]] = strings.Join(v, "")
			}
			n += count(v)
		}
	case "update":
		if len(t) < 4 || t[2] != "set" {
			s.bad = "update"
			return s
		}
		s.kind, s.table = "update", t[1]
		t = t[3:]
		w := indexTok(t, "where")
		set := t
		if w >= 0 {
			set = t[:w]
		}
		for _, a := range splitTop(set) {
			if len(a) < 3 || a[1] != "=" {
				s.bad = "set"
				return s
			}
			s.cols = append(s.cols, a[0])
			if len(a) == 3 && a[2] == "?" {
				s.arg[a[0]] = n
			} else {
				s.lit[a[0]] = strings.Join(a[2:], "")
			}
			n += count(a)
		}
		if w >= 0 {
			where(t[w+1:])
		}
	case "delete":
		if len(t) < 3 || t[1] != "from" {
			s.bad = "delete"
			return s
		}
		s.kind, s.table = "delete", t[2]
		if w := indexTok(t, "where"); w >= 0 {
			where(t[w+1:])
		}
	case "select":
		t = t[1:]
		s.kind = "select"
		if u := indexTok(t, "union"); u >= 0 {
			rest := t[u+1:]
			if len(rest) > 0 && rest[0] == "all" {
				rest = rest[1:]
			}
			o := parseSQL1(strings.Join(rest, " "))
			s.unions = append(append(s.unions, o.table), o.unions...)
			if o.bad != "" {
				s.bad = o.bad
			}
			t = t[:u]
		}
		if len(t) > 0 && t[0] == "distinct" {
			s.uniq = true
			t = t[1:]
		}
		f := indexTok(t, "from")
		if f < 0 || f+1 >= len(t) {
			s.bad = "from"
			return s
		}
		for _, c := range splitTop(t[:f]) {
			s.cols = append(s.cols, strings.Join(c, ""))
		}
		s.table = t[f+1]
		t = t[f+2:]
		if l := indexTok(t, "limit"); l >= 0 {
			s.limit = strings.Join(t[l+1:], " ")
			t = t[:l]
		}
		if o := indexTok(t, "order"); o >= 0 {
			if o+1 < len(t) && t[o+1] == "by" {
				s.order = strings.Join(t[o+2:], " ")
			} else {
				s.bad = "order"
			}
			t = t[:o]
		}
		if len(t) > 0 {
			if t[0] == "where" {
				where(t[1:])
			} else {
				s.odd = true
			}
		}
	}
	return s
}

func splitWord(t []string, w string) [][]string {
	var r [][]string
	var cur []string
	d := 0
	for _, x := range t {
		if x == "(" {
			d++
		}
		if x == ")" {
			d--
		}
		if d == 0 && x == w {
			r = append(r, cur)
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	return append(r, cur)
}

// parseCond reads a condition into alternatives of conjunctions.
func (s *sqlStmt) parseCond(t []string, n *int) [][]sqlCond {
	for {
		in, rest, ok := group(t)
		if !ok || len(rest) > 0 {
			break
		}
		t = in
	}
	for _, x := range t {
		if x == "between" || x == "in" || x == "like" || x == "not" || x == "is" || x == "exists" || x == "case" {
			s.odd = true
		}
	}
	if alts := splitWord(t, "or"); len(alts) > 1 {
		var r [][]sqlCond
		for _, a := range alts {
			r = append(r, s.parseCond(a, n)...)
		}
		return r
	}
	if conj := splitWord(t, "and"); len(conj) > 1 {
		r := [][]sqlCond{nil}
		for _, a := range conj {
			var nr [][]sqlCond
			for _, y := range s.parseCond(a, n) {
				for _, x := range r {
					nr = append(nr, append(append([]sqlCond{}, x...), y...))
				}
			}
			r = nr
		}
		return r
	}
	// a single comparison
	op := ""
	at, end := -1, -1
	for i, x := range t {
		if x == "=" || x == "<" || x == ">" || x == "!" {
			if at < 0 {
				at = i
			}
			end = i
			op += x
		}
	}
	if op == "==" {
		op = "="
	}
	if op == "!=" {
		op = "<>"
	}
	if at < 1 || end+1 >= len(t) || end-at+1 > 2 {
		s.odd = true
		return nil
	}
	l, r := t[:at], t[end+1:]
	if len(l) == 1 && l[0] == "?" {
		l, r = r, l
		switch op {
		case "<":
			op = ">"
		case ">":
			op = "<"
		case "<=":
			op = ">="
		case ">=":
			op = "<="
		}
	}
	if len(l) != 1 || len(r) == 0 || len(r) > 2 || len(r) == 2 && r[0] != "-" {
		s.odd = true
		return nil
	}
	c := sqlCond{col: bare(l[0]), op: op, arg: -1, lit: strings.Join(r, "")}
	if c.lit == "?" {
		c.arg = *n
		*n++
	}
	return [][]sqlCond{{c}}
}

// sqlText is the text of a statement; numbers formatted into it become §.
func sqlText(p *Poly) string {
	if t, ok := p.strConst(); ok {
		return t
	}
	a := p.single()
	if a == nil || a.op != "app" || a.name != "concat" {
		unsup("SQL text is not a constant: %s", short(p.String()))
	}
	r := ""
	for _, x := range a.args {
		q := x.(*Poly)
		if t, ok := q.strConst(); ok {
			r += t
			continue
		}
		if b := q.single(); b != nil && b.op == "app" && b.name == "itoa" {
			r += " § "
			continue
		}
		unsup("SQL text is not a constant: %s", short(p.String()))
	}
	return r
}

func sqlIntr(m map[string]Intrinsic, b string) {
	st := func(c *Call) *sqlStmt {
		return parseSQL(sqlText(c.p(0)))
	}
	col := func(c *Call, i int) string {
		t, ok := c.p(i).strConst()
		if !ok {
			unsup("column name")
		}
		return strings.ToLower(t)
	}
	idx := func(m map[string]int, k string) []Value {
		if v, ok := m[k]; ok {
			return []Value{constP(int64(v))}
		}
		return []Value{constP(-1)}
	}
	str := func(s string) []Value { return []Value{strP(s)} }
	m[b+"verifSQLKind"] = func(c *Call) []Value { return str(st(c).kind) }
	m[b+"verifSQLTable"] = func(c *Call) []Value { return str(st(c).table) }
	m[b+"verifSQLArg"] = func(c *Call) []Value { return idx(st(c).arg, col(c, 1)) }
	m[b+"verifSQLWhere"] = func(c *Call) []Value {
		s := st(c)
		if s.odd {
			unsup("condition of %q", c.p(0))
		}
		return idx(s.where, col(c, 1))
	}
	m[b+"verifSQLSel"] = func(c *Call) []Value {
		s := st(c)
		k, ok := c.p(1).intConst()
		if !ok {
			unsup("column index")
		}
		if s.kind == "select" && k >= 0 && int(k) < len(s.cols) {
			return str(s.cols[k])
		}
		return str("")
	}
	order := func(c *Call) []string {
		k, ok := c.p(1).intConst()
		if !ok {
			unsup("order index")
		}
		o := strings.Split(st(c).order, ",")
		if st(c).order == "" || k < 0 || int(k) >= len(o) {
			return []string{"", ""}
		}
		f := strings.Fields(o[k])
		if len(f) > 2 || len(f) == 2 && f[1] != "asc" && f[1] != "desc" {
			unsup("order %q", o[k])
		}
		return append(f, "")
	}
	m[b+"verifSQLOrder"] = func(c *Call) []Value { return str(bare(order(c)[0])) }
	m[b+"verifSQLOrderDesc"] = func(c *Call) []Value { return []Value{boolP(order(c)[1] == "desc")} }
	m[b+"verifSQLLimit"] = func(c *Call) []Value {
		l := st(c).limit
		switch {
		case l == "":
			return []Value{constP(-1)}
		case l == "?":
			return []Value{constP(-2)}
		}
		k, err := strconv.Atoi(l)
		if err != nil {
			unsup("limit %q", l)
		}
		return []Value{constP(int64(k))}
	}
	// the condition: number of alternatives, comparisons of an alternative
	m[b+"verifSQLAlts"] = func(c *Call) []Value {
		s := st(c)
		if s.odd {
			unsup("condition of %q", c.p(0))
		}
		return []Value{constP(int64(len(s.conds)))}
	}
	cond := func(c *Call) (*sqlCond, int) {
		s := st(c)
		i, ok := c.p(1).intConst()
		k, ok2 := c.p(2).intConst()
		if !ok || !ok2 || int(i) >= len(s.conds) {
			unsup("condition index")
		}
		if int(k) >= len(s.conds[i]) {
			return nil, 0
		}
		return &s.conds[i][k], 0
	}
	m[b+"verifSQLCondCol"] = func(c *Call) []Value {
		if x, _ := cond(c); x != nil {
			return str(x.col)
		}
		return str("")
	}
	m[b+"verifSQLCondOp"] = func(c *Call) []Value {
		x, _ := cond(c)
		return str(x.op)
	}
	m[b+"verifSQLCondArg"] = func(c *Call) []Value {
		x, _ := cond(c)
		return []Value{constP(int64(x.arg))}
	}
	m[b+"verifSQLCondInt"] = func(c *Call) []Value {
		x, _ := cond(c)
		k, err := strconv.Atoi(x.lit)
		if err != nil {
			unsup("literal %q", x.lit)
		}
		return []Value{constP(int64(k))}
	}
	m[b+"verifSQLCondStr"] = func(c *Call) []Value {
		x, _ := cond(c)
		if len(x.lit) < 2 || x.lit[0] != '\'' {
			unsup("literal %q", x.lit)
		}
		return str(strings.Trim(x.lit, "'"))
	}
	m[b+"verifUndecided"] = func(c *Call) []Value {
		unsup("%s", c.p(0))
		return nil
	}
	m[b+"verifSQLDistinct"] = func(c *Call) []Value {
		if st(c).uniq {
			return []Value{One}
		}
		return []Value{Zero}
	}
	m[b+"verifSQLArgs"] = func(c *Call) []Value { return []Value{constP(int64(st(c).nargs))} }
	// problems of a statement against the tables created by the texts in the
	// second argument ("\n" separated)
	m[b+"verifSQLProblem"] = func(c *Call) []Value {
		sch, ok := c.p(1).strConst()
		if !ok {
			unsup("schema is not a constant")
		}
		return str(sqlProblem(st(c), sch))
	}
	// declared type of a column
	m[b+"verifSQLType"] = func(c *Call) []Value {
		sch, ok := c.p(0).strConst()
		if !ok {
			unsup("schema is not a constant")
		}
		return str(sqlSchema(sch)[col(c, 1)][bare(col(c, 2))])
	}
	handle := func(name string) {
		m[b+"verif"+name] = func(c *Call) []Value {
			a := appKP("handle."+name, KOther, c.sig.Results().At(0).Type(), false, c.p(0), c.p(1))
			return []Value{a}
		}
		get := func(i int) Intrinsic {
			return func(c *Call) []Value {
				return []Value{lifted([]Node{c.p(0)}, func(n []Node) *Poly {
					a := n[0].(*Poly).single()
					if a == nil || a.op != "app" || a.name != "handle."+name {
						unsup("%s handle %s", name, short(n[0].(*Poly).String()))
					}
					return a.args[i].(*Poly)
				})}
			}
		}
		m[b+"verif"+name+"Text"] = get(0)
		m[b+"verif"+name+"ID"] = get(1)
	}
	for _, n := range []string{"SQLStmt", "SQLTx", "SQLRows", "SQLRow", "FlagSet", "File", "Writer", "Reader", "Buffer", "Image"} {
		handle(n)
	}
	m[b+"verifSQLHas"] = func(c *Call) []Value {
		s := st(c)
		t := col(c, 1)
		for _, x := range append([]string{s.table}, s.unions...) {
			if x == t {
				return []Value{One}
			}
		}
		return []Value{Zero}
	}
}

func sqlSchema(texts string) map[string]map[string]string {
	r := map[string]map[string]string{}
	for _, t := range strings.Split(texts, "\n") {
		s := parseSQL(t)
		if s.kind != "create" {
			continue
		}
		if r[s.table] == nil {
			r[s.table] = map[string]string{}
		}
		for _, c := range s.cols {
			r[s.table][c] = s.types[c]
		}
	}
	return r
}

// sqlProblem names what does not fit: tables, columns, form.
func sqlProblem(s *sqlStmt, schema string) string {
	if s.bad != "" {
		return s.bad
	}
	sc := sqlSchema(schema)
	if s.kind == "create" && !s.uniq && sc[s.table] != nil {
		return "table " + s.table + " exists"
	}
	if s.kind == "other" || s.kind == "create" {
		return ""
	}
	tabs := append([]string{s.table}, s.unions...)
	for _, t := range tabs {
		if sc[t] == nil {
			return "no table " + t
		}
	}
	has := func(c string) bool {
		for _, t := range tabs {
			if _, ok := sc[t][bare(c)]; ok {
				return true
			}
		}
		return bare(c) == "rowid"
	}
	var cs []string
	for _, alt := range s.conds {
		for _, c := range alt {
			cs = append(cs, c.col)
		}
	}
	for _, c := range s.cols {
		x := c
		for _, f := range []string{"max(", "min(", "count(", "sum(", "avg(", "total("} {
			if strings.HasPrefix(x, f) && strings.HasSuffix(x, ")") {
				x = x[len(f) : len(x)-1]
				x = strings.TrimPrefix(x, "distinct")
			}
		}
		if x == "*" {
			continue
		}
		cs = append(cs, x)
	}
	if s.order != "" {
		for _, o := range splitTop(strings.Fields(strings.ReplaceAll(s.order, ",", " , "))) {
			if len(o) > 0 {
				cs = append(cs, o[0])
			}
		}
	}
	for _, c := range cs {
		if !has(c) {
			return "no column " + c + " in " + s.table
		}
	}
	return ""
}
