package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P24: JSON and YAML written by other programs

// fwriter writes tables as JSON or YAML in a style of its own.
type fwriter struct {
	c      *Ctx
	codec  string
	cells  []fcell
	rows   []frow
	metas  []frow
	tables []*node
	datas  []*node
	plain  int // how often strings need not be quoted
}

type fcell struct {
	n    *node
	a    *Abs
	r, k int
}

type frow struct {
	n *node
	a *Abs
	r int
}

// str spells a string as a quoted token.
func (f *fwriter) str(s string) string {
	c := f.c
	if f.codec == "yaml" {
		bare := s != ""
		single := true
		for _, r := range s {
			if r < ' ' || r > '~' {
				single, bare = false, false
			} else if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
				bare = false
			}
		}
		switch strings.ToLower(s) {
		case "y", "n", "yes", "no", "on", "off", "true", "false", "null", "nan", "inf":
			bare = false
		}
		if bare && f.plain > 0 && c.N(f.plain) > 0 {
			return s
		}
		if single && c.N(3) == 2 {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	}
	often := []int{0, 2, 8}[c.N(3)] // one rune in so many is escaped without need
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\t': `\t`, '\r': `\r`, '\b': `\b`, '\f': `\f`}[r]
		must := r < ' ' || r == '"' || r == '\\'
		if f.codec == "yaml" { // what is not printable there, or breaks a line, or is a mark
			must = must || r >= 0x7f && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r >= 0xfffe && r <= 0xffff || r > 0xffff && r&0xfffe == 0xfffe
		}
		switch {
		case !must && r == '/' && f.codec == "json" && often > 0 && c.N(often) == 0:
			b.WriteString(`\/`)
		case !must && (often == 0 || c.N(often) > 0):
			b.WriteRune(r)
		case short != "" && c.N(3) < 2:
			b.WriteString(short)
		case r > 0xffff && f.codec == "yaml":
			fmt.Fprintf(&b, `\U%08X`, r)
		case r > 0xffff:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		case c.N(2) == 0:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			fmt.Fprintf(&b, `\u%04X`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (f *fwriter) spellInt(neg bool, mag uint64) string {
	c := f.c
	sign := ""
	if neg {
		sign = "-"
	}
	dec := strconv.FormatUint(mag, 10)
	switch r := c.N(8); {
	case r < 5:
	case f.codec == "json" && mag > 1<<53 && r == 7:
		// the point moved: 1.2345e4, 12345.000e0
		k := 1 + c.N(len(dec)-1)
		if t := strings.TrimRight(dec[k:], "0"); t == "" {
			return fmt.Sprintf("%s%s.%se%d", sign, dec[:k], strings.Repeat("0", 1+c.N(30)), len(dec)-k)
		}
		return fmt.Sprintf("%s%s.%s%se%d", sign, dec[:k], dec[k:], strings.Repeat("0", c.N(30)), len(dec)-k)
	case f.codec == "json" && r == 6 && c.N(2) == 0:
		return sign + dec + "." + strings.Repeat("0", 1+c.N(40))
	case f.codec == "json" && r == 5:
		return sign + dec + ".0"
	case f.codec == "json" && r == 6:
		return sign + dec + pick(c, []string{"e0", "E+0", "e-0"})
	case f.codec == "json" && mag%10 == 0 && mag > 0:
		return sign + dec[:len(dec)-1] + pick(c, []string{"e1", "E1", "e+1"})
	}
	return sign + dec
}

func (f *fwriter) spellFloat(v float64, bits int) string {
	c := f.c
	switch {
	case math.IsNaN(v):
		return pick(c, []string{".nan", ".NaN", ".NAN"})
	case math.IsInf(v, 1):
		return pick(c, []string{".inf", ".Inf", "+.inf"})
	case math.IsInf(v, -1):
		return pick(c, []string{"-.inf", "-.Inf"})
	}
	if f.codec == "yaml" {
		bits = 64 // a YAML reader knows floats of 64 bits only
	}
	s := strconv.FormatFloat(v, 'g', -1, bits)
	switch c.N(6) {
	case 3:
		s = strconv.FormatFloat(v, 'e', -1, bits)
	case 4:
		if a := math.Abs(v); a < 1e30 && (a > 1e-30 || a == 0) {
			s = strconv.FormatFloat(v, 'f', -1, bits)
		}
	case 5:
		s = strconv.FormatFloat(v, 'e', 16+c.N(10), 64)
	}
	if c.N(4) == 3 {
		s = strings.ToUpper(s)
	}
	if f.codec == "yaml" && !strings.ContainsAny(s, ".eE") && (v == 0 || math.Abs(v) > 1<<53) {
		s += ".0" // an integer has no negative zero
	}
	return s
}

func (f *fwriter) spellTime(t time.Time) string {
	s := t.Format(time.RFC3339Nano)
	i := strings.IndexByte(s, '.')
	if i > 0 && f.c.N(3) == 2 {
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j-i-1 < 9 {
			s = s[:j] + "0" + s[j:]
		}
	} else if i < 0 && f.c.N(4) == 3 {
		s = s[:19] + pick(f.c, []string{".0", ".000"}) + s[19:]
	}
	if strings.HasSuffix(s, "Z") && f.c.N(3) == 2 {
		s = s[:len(s)-1] + "+00:00"
	}
	return s
}

// spell writes a value of a column of type typ.
func (f *fwriter) spell(typ string, v interface{}) *node {
	switch x := v.(type) {
	case bool:
		return leaf(strconv.FormatBool(x))
	case string:
		return leaf(f.str(x))
	case float64:
		return leaf(f.spellFloat(x, 64))
	case float32:
		return leaf(f.spellFloat(float64(x), 32))
	case time.Time:
		if f.codec == "json" {
			return leaf(f.str(f.spellTime(x)))
		}
		return leaf(f.spellTime(x))
	case []byte:
		n := &node{kind: 'l'}
		for _, b := range x {
			n.kids = append(n.kids, leaf(f.spellInt(false, uint64(b))))
		}
		return n
	case *Abs:
		if x.Nil {
			if f.codec == "json" {
				return leaf("null")
			}
			return &node{kind: 'm', keys: []string{f.str("tableName")}, kids: []*node{leaf(`""`)}}
		}
		return f.table(x)
	case int32:
		if typ == "rune" && f.codec == "json" {
			return leaf(f.str(string(x)))
		}
	}
	n := mustInt(v)
	return leaf(f.spellInt(n.Sign() < 0, new(big.Int).Abs(n).Uint64()))
}

func mustInt(v interface{}) *big.Int {
	switch x := v.(type) {
	case int:
		return big.NewInt(int64(x))
	case int8:
		return big.NewInt(int64(x))
	case int16:
		return big.NewInt(int64(x))
	case int32:
		return big.NewInt(int64(x))
	case int64:
		return big.NewInt(x)
	case uint:
		return new(big.Int).SetUint64(uint64(x))
	case uint8:
		return big.NewInt(int64(x))
	case uint16:
		return big.NewInt(int64(x))
	case uint32:
		return big.NewInt(int64(x))
	case uint64:
		return new(big.Int).SetUint64(x)
	}
	panic(fmt.Sprintf("mustInt %T", v))
}

// intOf is the value of n in a column of type typ, nil if it does not fit.
func intOf(typ string, n *big.Int) interface{} {
	fits := func(signed bool, bits uint) bool {
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
		if signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		return n.Cmp(lo) >= 0 && n.Cmp(hi) < 0
	}
	switch typ {
	case "int":
		if fits(true, 64) {
			return int(n.Int64())
		}
	case "int64":
		if fits(true, 64) {
			return n.Int64()
		}
	case "int8":
		if fits(true, 8) {
			return int8(n.Int64())
		}
	case "int16":
		if fits(true, 16) {
			return int16(n.Int64())
		}
	case "int32", "rune":
		if fits(true, 32) {
			return int32(n.Int64())
		}
	case "uint":
		if fits(false, 64) {
			return uint(n.Uint64())
		}
	case "uint64":
		if fits(false, 64) {
			return n.Uint64()
		}
	case "byte", "uint8":
		if fits(false, 8) {
			return uint8(n.Uint64())
		}
	case "uint16":
		if fits(false, 16) {
			return uint16(n.Uint64())
		}
	case "uint32":
		if fits(false, 32) {
			return uint32(n.Uint64())
		}
	}
	return nil
}

// table writes a table as a tree of tokens.
func (f *fwriter) table(a *Abs) *node {
	c := f.c
	n := &node{kind: 'm'}
	put := func(key string, v *node) {
		n.keys = append(n.keys, f.str(key))
		n.is = append(n.is, key)
		n.kids = append(n.kids, v)
	}
	f.tables = append(f.tables, n)
	put("tableName", leaf(f.str(a.Name)))
	if a.Struct || c.N(4) == 3 {
		put("isStructShape", leaf(strconv.FormatBool(a.Struct)))
	}
	meta := &node{kind: 'l'}
	for k := range a.Cols {
		m := &node{kind: 'm', keys: []string{f.str(a.Cols[k])}, kids: []*node{leaf(f.str(a.Types[k]))}}
		meta.kids = append(meta.kids, m)
	}
	f.metas = append(f.metas, frow{meta, a, 0})
	put("metadata", meta)
	if len(a.Rows) > 0 || c.N(2) == 0 {
		data := &node{kind: 'l'}
		for r, row := range a.Rows {
			x := &node{kind: 'l'}
			for k, v := range row {
				cell := f.spell(a.Types[k], v)
				f.cells = append(f.cells, fcell{cell, a, r, k})
				if f.codec == "json" {
					cell = &node{kind: 'm', keys: []string{f.str(a.Cols[k])}, kids: []*node{cell}}
				}
				x.kids = append(x.kids, cell)
			}
			if len(row) > 0 {
				f.rows = append(f.rows, frow{x, a, r})
			}
			data.kids = append(data.kids, x)
		}
		f.datas = append(f.datas, data)
		put("data", data)
	}
	f.shuffle(n)
	return n
}

// shuffle puts the entries of a map in another order, which means nothing.
func (f *fwriter) shuffle(n *node) {
	if f.c.N(3) == 0 {
		return
	}
	for i := len(n.kids) - 1; i > 0; i-- {
		j := f.c.N(i + 1)
		n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
		n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
		if n.is != nil {
			n.is[i], n.is[j] = n.is[j], n.is[i]
		}
	}
}

// flow lays out a tree in braces and brackets.
func (f *fwriter) flow(b *strings.Builder, n *node, loose int, indent string) {
	c := f.c
	gap := func() {
		if loose == 0 || c.N(loose) > 0 {
			return
		}
		if f.codec == "json" {
			b.WriteString(pick(c, []string{" ", "\n", "\t", "\r\n", "  ", "\n\n\t"}))
		} else {
			b.WriteString(pick(c, []string{" ", "\n" + indent + " ", "  ", " # comment: [\n" + indent + " ", "\n\n" + indent + "  "}))
		}
	}
	open, shut := "{", "}"
	switch n.kind {
	case 'l':
		open, shut = "[", "]"
	case 'm':
	default:
		b.WriteString(n.raw)
		return
	}
	b.WriteString(open)
	gap()
	for i, k := range n.kids {
		if i > 0 {
			b.WriteByte(',')
			if f.codec == "yaml" {
				b.WriteByte(' ')
			}
			gap()
		}
		if n.kind == 'm' {
			b.WriteString(n.keys[i])
			if f.codec == "json" {
				gap()
				b.WriteByte(':')
				gap()
			} else {
				b.WriteString(": ")
			}
		}
		f.flow(b, k, loose, indent)
		gap()
	}
	b.WriteString(shut)
}

// block lays out a tree in lines, as YAML can.
func (f *fwriter) block(b *strings.Builder, n *node, indent string, step, flows, loose int) {
	c := f.c
	for i, k := range n.kids {
		if c.N(12) == 11 {
			b.WriteString(pick(c, []string{"\n", indent + "# a comment\n", "  \n"}))
		}
		b.WriteString(indent)
		if n.kind == 'm' {
			b.WriteString(n.keys[i] + ":")
		} else {
			b.WriteString("-")
		}
		if k.kind == 'x' || len(k.kids) == 0 || (flows > 0 && c.N(flows) == 0) {
			b.WriteString(pick(c, []string{" ", " ", "  "}))
			f.flow(b, k, loose, indent)
			if k.kind == 'x' && c.N(12) == 11 {
				b.WriteString(" # so")
			}
			b.WriteByte('\n')
			continue
		}
		b.WriteByte('\n')
		f.block(b, k, indent+strings.Repeat(" ", step), step, flows, loose)
	}
}

func (f *fwriter) layout(n *node) string {
	c := f.c
	var b strings.Builder
	loose := []int{0, 2, 6, 30}[c.N(4)]
	if f.codec == "yaml" {
		b.WriteString(pick(c, []string{"", "", "---\n", "# by hand\n", "%YAML 1.1\n---\n", "\n\n"}))
		if c.N(3) > 0 {
			f.block(&b, n, "", 1+c.N(4), []int{0, 1, 3, 8}[c.N(4)], loose)
			b.WriteString(pick(c, []string{"", "", "...\n", "# end\n"}))
			return b.String()
		}
	} else {
		b.WriteString(pick(c, []string{"", "", "\n", " \t"}))
	}
	f.flow(&b, n, loose, "")
	b.WriteString(pick(c, []string{"", "\n", "\n\n"}))
	return b.String()
}

var plainInt = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)

// number is what a number says, exactly.
func number(raw string) *big.Rat {
	q, ok := new(big.Rat).SetString(raw)
	if !ok {
		panic("number " + raw)
	}
	return q
}

// denotes tells what a number means in a column of type typ: nil if nothing.
func denotes(codec, typ, raw string) (v interface{}, sure bool) {
	q := number(raw)
	switch typ {
	case "float64":
		x, _ := q.Float64()
		if math.IsInf(x, 0) {
			return nil, true
		}
		if q.Sign() == 0 && raw[0] == '-' {
			x = math.Copysign(0, -1)
		}
		return x, true
	case "float32":
		x, _ := q.Float32()
		if math.IsInf(float64(x), 0) {
			return nil, true
		}
		if q.Sign() == 0 && raw[0] == '-' {
			x = float32(math.Copysign(0, -1))
		}
		return x, true
	}
	if codec == "yaml" && typ == "string" {
		return raw, false // what a YAML reader does not take for a number is text
	}
	if codec == "json" && typ == "rune" || !q.IsInt() {
		return nil, true
	}
	return intOf(typ, q.Num()), plainInt.MatchString(raw) && raw != "-0"
}

// misfit writes another thing into a cell: what it means there, nil if nothing, is the new value.
func (f *fwriter) misfit(typ string) (n *node, v interface{}, sure bool, kind string) {
	c := f.c
	isInt := intOf(typ, big.NewInt(1)) != nil
	isFloat := typ == "float64" || typ == "float32"
	isNum := isInt || isFloat
	k := c.N(8)
	if isNum && c.N(3) > 0 {
		k = c.N(2)
	}
	switch k {
	case 0: // an integer near the end of some type
		x := new(big.Int).Lsh(big.NewInt(1), uint(pick(c, []int{0, 7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 100})))
		x.Add(x, big.NewInt(int64(c.N(5)-2)))
		if c.N(2) == 0 {
			x.Neg(x)
		}
		raw := x.String()
		if f.codec == "json" && c.N(3) == 2 {
			raw += pick(c, []string{".0", "e0", "E1", ".5"})
		}
		v, sure = denotes(f.codec, typ, raw)
		if f.codec == "yaml" && !new(big.Int).Abs(x).IsUint64() && isInt {
			sure = false
		}
		return leaf(raw), v, sure, "integer at the edge of a type"
	case 1: // a float
		raw := pick(c, []string{"1.5", "-0.5", "1e10", "1.0e-3", "3.4028234663852886e38", "3.4028236e38", "-3.5e38", "1e39", "1.7976931348623157e308", "1.8e308", "-1e309", "1e-45", "1e-46", "5e-324", "1e-330", "2.5e2", "1e400", "16777217.0", "9007199254740993.0", "255.0", "256.0", "-129.0", "0.1", "123456789.125"})
		if c.N(3) == 2 {
			raw = strconv.FormatFloat(genFloat(c, 64, genOpt{noNaN: true, noInf: true}), 'e', -1, 64)
		}
		v, sure = denotes(f.codec, typ, raw)
		if f.codec == "yaml" {
			sure = sure && isFloat && math.Abs(mustFloat(raw)) < 1e300
			if x, ok := v.(float32); ok { // by way of a float64, which may round twice
				v = f32{x, float32(mustFloat(raw))}
			}
		}
		return leaf(raw), v, sure, "float"
	case 2:
		s := pick(c, []string{"", "x", "é", "ab", "5", "-1", "1.5", "true", "null", "2020-01-01T00:00:00Z", "2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01", "AQ==", "𝄞", "[1]", "a ", " a", "\n", "a\n", "\ra", "\x00", "a\x00", "e\u0301", "''"})
		switch {
		case typ == "string":
			v, sure = s, true
		case typ == "rune" && f.codec == "json":
			if utf8.RuneCountInString(s) == 1 {
				r, _ := utf8.DecodeRuneInString(s)
				v, sure = r, true
			}
		case typ == "time.Time":
			if s == "2020-01-01T00:00:00Z" {
				v = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
				sure = f.codec == "json"
			}
		}
		if v == nil {
			sure = true
		}
		was := f.plain
		f.plain = 0
		n = leaf(f.str(s))
		f.plain = was
		return n, v, sure, "string"
	case 3:
		b := c.N(2) == 1
		if typ == "bool" {
			v = b
		}
		return leaf(strconv.FormatBool(b)), v, true, "truth value"
	case 4:
		if typ == "*Table" {
			v = &Abs{Nil: true}
		}
		return leaf("null"), v, f.codec == "json" || v == nil, "null"
	case 5:
		n = &node{kind: 'l'}
		bs := []byte{}
		good := true
		for i := c.N(4); i > 0; i-- {
			raw := pick(c, []string{"0", "1", "255", "256", "-1", "300", "1.5", "127", "128", "65"})
			if x, _ := denotes("yaml", "uint8", raw); x != nil {
				bs = append(bs, x.(byte))
			} else {
				good = false
			}
			n.kids = append(n.kids, leaf(raw))
		}
		if good && (typ == "[]byte" || typ == "[]uint8") {
			v = bs
		}
		return n, v, true, "list of numbers"
	case 6:
		n = &node{kind: 'l', kids: []*node{leaf(pick(c, []string{`"a"`, "null", "true", "[1]", "{}"}))}}
		return n, nil, true, "list of other things"
	default:
		// a map which is no table
		n = &node{kind: 'm'}
		if c.N(2) == 0 {
			n.keys, n.kids = []string{`"a"`}, []*node{leaf("1")}
		}
		return n, nil, true, "map"
	}
}

// f32 is a float32 that may be either of two.
type f32 struct{ a, b float32 }

func mustFloat(raw string) float64 {
	x, _ := number(raw).Float64()
	return x
}

// cut leaves out an entry of a map.
func (n *node) cut(k int) {
	n.keys = append(append([]string{}, n.keys[:k]...), n.keys[k+1:]...)
	n.kids = append(append([]*node{}, n.kids[:k]...), n.kids[k+1:]...)
	n.is = append(append([]string{}, n.is[:k]...), n.is[k+1:]...)
}

// wreck spoils the structure of a message so that it says nothing.
func (f *fwriter) wreck(root *node) string {
	c := f.c
	rows, metas := f.rows, f.metas
	switch c.N(10) {
	case 7, 8: // what a message cannot do without is missing, or is something else
		n, key := root, pick(c, []string{"tableSetName", "tables"})
		if c.N(3) > 0 {
			n, key = pick(c, f.tables), pick(c, []string{"tableName", "metadata"})
		}
		k := -1
		for i := range n.keys {
			if n.is[i] == key {
				k = i
			}
		}
		if c.N(2) == 0 {
			n.cut(k)
			return key + " missing"
		}
		if key == "tableSetName" || key == "tableName" {
			n.kids[k] = leaf(pick(c, []string{"5", "null", "true", "1.5", `["x"]`, "{}"}))
		} else {
			n.kids[k] = leaf(pick(c, []string{"5", "null", "true", `"x"`, "{}", `{"a": "int"}`}))
		}
		return key + " of another kind"
	case 9:
		if m := pick(c, metas); len(m.n.kids) > 0 && c.N(2) == 0 {
			*pick(c, m.n.kids) = *leaf(pick(c, []string{"1", `"a"`, "null", `["a", "int"]`, "{}", `{"a": "int", "b": "int"}`}))
			return "a column that is no name and type"
		}
		*pick(c, f.tables) = *leaf(pick(c, []string{"1", `"a"`, "true", "[]", "{}", `{"a": "int"}`}))
		return "a table that is none"
	case 0:
		if len(rows) > 0 {
			x := pick(c, rows)
			k := c.N(len(x.n.kids))
			x.n.kids = append(x.n.kids, x.n.kids[k].clone())
			return "a cell too many in a row"
		}
	case 1:
		if len(rows) > 0 {
			x := pick(c, rows)
			*x.n = *leaf(pick(c, []string{"1", `"x"`, "true", "null", "{}"}))
			return "a row is no list"
		}
	case 2:
		m := pick(c, metas)
		if len(m.n.kids) > 0 {
			x := pick(c, m.n.kids)
			x.kids[0] = leaf(pick(c, []string{`"Int"`, `"x"`, `""`, "5", "null", `"[]int"`, `"*int"`, `"float"`, `["int"]`}))
			return "a column type that there is not"
		}
	case 3:
		m := pick(c, metas)
		if len(m.n.kids) > 0 {
			m.n.kids = append(m.n.kids, pick(c, m.n.kids).clone())
			return "two columns of one name"
		}
	case 4:
		m := pick(c, metas)
		if len(m.n.kids) > 0 {
			x := pick(c, m.n.kids)
			x.keys[0] = pick(c, []string{`""`, `"1a"`, `"a b"`, `"a-b"`, `"int"`, `"é€"`})
			return "a column name that cannot be"
		}
	case 5:
		if len(f.datas) > 0 {
			*pick(c, f.datas) = *leaf(pick(c, []string{"1", `"x"`, "true", `{"a": 1}`}))
			return "data that are no list of rows"
		}
	default:
		if f.codec == "json" && len(rows) > 0 {
			x := pick(c, rows)
			k := c.N(len(x.n.kids))
			if c.N(2) == 0 && len(x.n.kids) > 1 {
				j := (k + 1) % len(x.n.kids)
				x.n.kids[k], x.n.kids[j] = x.n.kids[j], x.n.kids[k]
				return "cells under the names of other columns"
			}
			y := x.n.kids[k]
			if c.N(2) == 0 {
				y.keys[0] = `"zz9"`
				return "a cell under the name of no column"
			}
			if y.kids[0].kind == 'm' {
				return "" // a nested table, itself a map
			}
			x.n.kids[k] = y.kids[0]
			return "a cell without a name"
		}
	}
	return ""
}

type fmsgWorld struct{ W }

func (w *fmsgWorld) exchange(ci int) {
	c := w.c
	codec := pick(c, []string{"json", "yaml"})
	f := &fwriter{c: c, codec: codec, plain: []int{0, 3}[c.N(2)]}
	m := &codecMsg{codec: codec, isSet: true, setName: pick(c, []string{"", "Set_1", "MySet"})}
	names := map[string]bool{}
	list := &node{kind: 'l'}
	cells := 0
	for _, d := range w.clients[ci] {
		if d.m.Nil || names[d.m.Name] || !mustCarry(codec, d.m) || (len(m.want) > 0 && c.N(2) == 0) {
			continue
		}
		a := sendable(codec, d.m)
		if cells += len(a.Rows) * len(a.Cols); cells > 2000 {
			break
		}
		names[a.Name] = true
		m.want = append(m.want, a)
		list.kids = append(list.kids, f.table(a))
	}
	root := &node{kind: 'm', keys: []string{f.str("tableSetName"), f.str("tables")}, is: []string{"tableSetName", "tables"}, kids: []*node{leaf(f.str(m.setName)), list}}
	f.shuffle(root)
	must, mustNot := true, false
	why := "nothing odd"
	var alts []string
	switch c.N(4) {
	case 2, 3:
		if len(f.cells) == 0 {
			break
		}
		x := pick(c, f.cells)
		n, v, sure, kind := f.misfit(x.a.Types[x.k])
		*x.n = *n
		why = fmt.Sprintf("%s in %s row %d, of type %s", kind, x.a.Cols[x.k], x.r, x.a.Types[x.k])
		must, mustNot = sure && v != nil, v == nil
		if two, ok := v.(f32); ok {
			v = two.a
			if two.b != two.a {
				alts = append(alts, canon(two.b))
			}
		}
		if v != nil {
			x.a.Rows[x.r][x.k] = v
		}
		if mustNot {
			c.Fault("a cell that its column cannot hold")
		} else {
			c.Fault("a cell in another spelling")
		}
	case 1:
		if len(f.metas) > 0 && c.N(2) == 0 {
			if s := f.wreck(root); s != "" {
				why = s
				must, mustNot = false, true
				c.Fault("message: " + s)
			}
		}
	}
	m.text = f.layout(root)
	how, ts, setName, _, p, st, err := decodeMsg(c, m)
	c.Ops++
	c.Probe(how)
	c.Ev("client %d reads %d tables that another program wrote as %s, %d bytes, %s: %s -> %s", ci, len(m.want), codec, len(m.text), why, how, errText(err))
	sig := codec + " by another program: "
	if p != nil {
		c.Fail(sig+"panic in "+panicSite(st), "%s (%s): %v\nmessage: %s\n%s", how, why, p, m.text, trimStack(st))
	}
	if err != nil {
		if must {
			c.Fail(sig+"refused", "%s (%s): %v\nmessage: %s", how, why, err, m.text)
		}
		c.Probe("message refused")
		return
	}
	if mustNot {
		c.Fail(sig+"nonsense accepted: "+strings.SplitN(why, " in ", 2)[0], "%s (%s) accepted\nmessage: %s\nread as: %s", how, why, m.text, showReal(ts))
	}
	if setName != m.setName {
		c.Fail(sig+"set name lost", "%s: %q became %q\nmessage: %s", how, m.setName, setName, m.text)
	}
	if len(ts) != len(m.want) {
		c.Fail(sig+"wrong number of tables", "%s: %d tables, expected %d\nmessage: %s", how, len(ts), len(m.want), m.text)
	}
	var now []*Doc
	for i, want := range m.want {
		a, lerr := look(ts[i])
		if lerr != nil {
			c.Fail(sig+"table unreadable", "%s: %v\nmessage: %s", how, lerr, m.text)
		}
		d := diffAbs(want, a)
		if d != "" && len(alts) > 0 && strings.Contains(a.canon(), alts[0]) {
			d = "" // rounded twice
		}
		if d != "" {
			c.Fail(sig+"read as something else", "%s (%s): %s\nmessage: %s", how, why, d, m.text)
		}
		if terr := a.typesOK(); terr != nil {
			c.Fail(sig+"cell of a wrong type", "%s: %v\nmessage: %s", how, terr, m.text)
		}
		if ok, verr := ts[i].IsValidTable(); !ok || verr != nil {
			c.Fail(sig+"invalid table", "%s: %v\nmessage: %s", how, verr, m.text)
		}
		now = append(now, &Doc{ts[i], a})
		c.State(a.shape())
	}
	if c.N(3) == 0 && len(now) > 0 {
		c.Fault("client restarts with an empty memory")
		w.clients[ci] = now
	}
}

func showReal(ts []*gt.Table) (s string) {
	for _, t := range ts {
		a, err := look(t)
		if err != nil {
			s += err.Error() + "\n"
			continue
		}
		s += a.canon() + "\n"
	}
	return
}

func runP24(c *Ctx) {
	w := &fmsgWorld{*newW(c, "P24")}
	w.o.nest = c.N(3)
	w.o.deep = c.N(16) == 15
	w.o.utf8 = true
	w.o.noNaN, w.o.noInf = c.N(4) > 0, c.N(4) > 0
	ops, wts := opMix(c, "2")
	for i := 0; i < 1+c.N(2); i++ {
		w.clients = append(w.clients, w.newDocs(3))
	}
	c.Plan(6, 40)
	n := 0
	for c.Step() {
		ci := c.N(len(w.clients))
		if c.N(5) < 3 {
			w.exchange(ci)
			n++
			continue
		}
		w.step(ops, wts)
	}
	c.Nontriv = n >= 2
}

func init() {
	register(&PropDef{ID: "P24", Mode: "plain", Run: runP24, Quick: 80000, Thorough: 2000000, Batch: 250,
		Rule: "each run: 1-2 clients with 1-3 tables, 6-40 seeded steps of edits and of messages in which another program writes the tables as JSON or YAML (order of keys, white space, comments, flow and block style, escapes, spellings of numbers and times decided by the seed), half of them with one cell that means something else or nothing in its column, or with a structure that says nothing; every accepted message compared cell by cell with what it says; non-trivial: at least 2 messages; distinct by hash of event log and states",
		Real: "gotables JSON and YAML decoders, table edits (all unmodified), encoding/json, gopkg.in/yaml.v3, Go runtime",
		Stub: "the foreign writer of messages; client interleaving, map order and random numbers decided by the simulator"})
}
