package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// allTypes in the order the choice 0.. picks them (simplest first).
var flatTypes = []string{"int", "string", "bool", "float64", "byte", "uint8", "[]byte", "[]uint8", "float32", "int8", "int16", "int32", "int64",
	"rune", "uint", "uint16", "uint32", "uint64", "time.Time"}
var allTypes = append(append([]string{}, flatTypes...), "*Table")

// nestTypes makes structures several levels deep likely (genAbs falls back to int at the bottom).
var nestTypes = append(append([]string{}, allTypes...), "*Table", "*Table", "*Table", "*Table", "*Table", "*Table", "*Table", "*Table", "*Table", "*Table")

// accessor is the name used in typed accessor methods.
func accessor(typ string) string {
	switch typ {
	case "[]byte":
		return "ByteSlice"
	case "[]uint8":
		return "Uint8Slice"
	case "*Table":
		return "Table"
	case "time.Time":
		return "Time"
	}
	return strings.ToUpper(typ[:1]) + typ[1:]
}

func aliasOf(typ string) string {
	switch typ {
	case "byte":
		return "uint8"
	case "uint8":
		return "byte"
	case "[]byte":
		return "[]uint8"
	case "[]uint8":
		return "[]byte"
	case "int32":
		return "rune"
	case "rune":
		return "int32"
	}
	return ""
}

// goType is the dynamic type a cell of typ holds.
func goType(typ string) string {
	switch typ {
	case "byte":
		return "uint8"
	case "[]byte":
		return "[]uint8"
	case "rune":
		return "int32"
	case "*Table":
		return "*gotables.Table"
	}
	return typ
}

func zeroOf(typ string) interface{} {
	switch typ {
	case "int":
		return int(0)
	case "string":
		return ""
	case "bool":
		return false
	case "float64":
		return float64(0)
	case "byte", "uint8":
		return uint8(0)
	case "[]byte", "[]uint8":
		return []byte{}
	case "float32":
		return float32(0)
	case "int8":
		return int8(0)
	case "int16":
		return int16(0)
	case "int32", "rune":
		return int32(0)
	case "int64":
		return int64(0)
	case "uint":
		return uint(0)
	case "uint16":
		return uint16(0)
	case "uint32":
		return uint32(0)
	case "uint64":
		return uint64(0)
	case "time.Time":
		return time.Time{}
	case "*Table":
		return &Abs{Nil: true}
	}
	panic("zeroOf " + typ)
}

// Abs is what a table looks like from outside.
type Abs struct {
	Name   string
	Cols   []string
	Types  []string
	Rows   [][]interface{} // Go values; nested tables as *Abs
	Keys   []Key
	Struct bool
	Nil    bool
	Cycle  bool
}

type Key struct {
	Col, Typ string
	Rev      bool
}

func (a *Abs) clone() *Abs {
	b := *a
	b.Cols = append([]string(nil), a.Cols...)
	b.Types = append([]string(nil), a.Types...)
	b.Keys = append([]Key(nil), a.Keys...)
	b.Rows = make([][]interface{}, len(a.Rows))
	for i, r := range a.Rows {
		b.Rows[i] = make([]interface{}, len(r))
		for j, v := range r {
			b.Rows[i][j] = cloneVal(v)
		}
	}
	return &b
}

func cloneVal(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		return append([]byte{}, x...)
	case *Abs:
		return x.clone()
	}
	return v
}

func (a *Abs) col(name string) int {
	for i, c := range a.Cols {
		if c == name {
			return i
		}
	}
	return -1
}

// canon renders a value so that two values are the same exactly when their renderings are.
func canon(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil!"
	case bool:
		return fmt.Sprintf("bool %t", x)
	case string:
		return fmt.Sprintf("string %q", x)
	case float64:
		if math.IsNaN(x) {
			return "float64 NaN"
		}
		return fmt.Sprintf("float64 %v#%x", x, math.Float64bits(x))
	case float32:
		if x != x {
			return "float32 NaN"
		}
		return fmt.Sprintf("float32 %v#%x", x, math.Float32bits(x))
	case []byte:
		return fmt.Sprintf("[]byte %x", x)
	case time.Time:
		return fmt.Sprintf("time %s#%d", x.Format(time.RFC3339Nano), x.Unix())
	case *Abs:
		return "table{" + x.canon() + "}"
	case *gt.Table:
		return "table{" + observe(x).canon() + "}"
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (a *Abs) canon() string {
	var b strings.Builder
	a.write(&b, true)
	return b.String()
}

// contents is canon without sort keys and struct shape (what data exchange must keep).
func (a *Abs) contents() string {
	var b strings.Builder
	a.write(&b, false)
	return b.String()
}

func (a *Abs) write(b *strings.Builder, meta bool) {
	if a == nil {
		b.WriteString("<nil>")
		return
	}
	if a.Cycle {
		b.WriteString("<cycle " + a.Name + ">")
		return
	}
	if a.Nil {
		b.WriteString("nil-table ")
	}
	fmt.Fprintf(b, "[%s]", a.Name)
	if meta {
		if a.Struct {
			b.WriteString(" struct")
		}
		if len(a.Keys) > 0 {
			fmt.Fprintf(b, " keys%v", a.Keys)
		}
	}
	for i := range a.Cols {
		fmt.Fprintf(b, " %s:%s", a.Cols[i], a.Types[i])
	}
	for i, r := range a.Rows {
		fmt.Fprintf(b, "\n row %d:", i)
		for _, v := range r {
			b.WriteByte(' ')
			if t, ok := v.(*Abs); ok {
				b.WriteString("table{")
				t.write(b, meta)
				b.WriteString("}")
			} else {
				b.WriteString(canon(v))
			}
			b.WriteByte(';')
		}
	}
}

func (a *Abs) hash() uint64 { return hashStr(11, a.canon()) }

// shape is a coarse state measure: types, row count bucket, keys.
func (a *Abs) shape() uint64 {
	n := len(a.Rows)
	if n > 4 {
		n = 4 + n/4
	}
	return hashStr(uint64(n), fmt.Sprint(a.Types, a.Keys, a.Struct, a.Nil))
}

// obsError is raised when a table cannot be observed: a getter failed on an existing cell.
type obsError struct{ what string }

func (e obsError) Error() string { return e.what }

// observe reads a table through its public interface.
func observe(t *gt.Table) *Abs {
	return observeIn(t, map[*gt.Table]bool{})
}

func observeIn(t *gt.Table, seen map[*gt.Table]bool) *Abs {
	if t == nil {
		panic(obsError{"table pointer is nil"})
	}
	if seen[t] {
		return &Abs{Name: t.Name(), Cycle: true}
	}
	seen[t] = true
	defer delete(seen, t)
	a := &Abs{Name: t.Name()}
	isNil, err := t.IsNilTable()
	if err != nil {
		panic(obsError{fmt.Sprintf("IsNilTable: %v", err)})
	}
	a.Nil = isNil
	a.Struct, _ = t.IsStructShape()
	n := t.ColCount()
	for i := 0; i < n; i++ {
		cn, err := t.ColName(i)
		if err != nil {
			panic(obsError{fmt.Sprintf("ColName(%d): %v", i, err)})
		}
		ct, err := t.ColTypeByColIndex(i)
		if err != nil {
			panic(obsError{fmt.Sprintf("ColTypeByColIndex(%d): %v", i, err)})
		}
		a.Cols = append(a.Cols, cn)
		a.Types = append(a.Types, ct)
	}
	if isNil {
		return a
	}
	rows := t.RowCount()
	for r := 0; r < rows; r++ {
		row := make([]interface{}, n)
		for i := 0; i < n; i++ {
			v, err := t.GetValByColIndex(i, r)
			if err != nil {
				panic(obsError{fmt.Sprintf("GetValByColIndex(%d,%d): %v", i, r, err)})
			}
			switch x := v.(type) {
			case *gt.Table:
				if x == nil {
					panic(obsError{fmt.Sprintf("nested table at col %d row %d is nil", i, r)})
				}
				row[i] = observeIn(x, seen)
			case []byte:
				row[i] = append([]byte{}, x...)
			default:
				row[i] = v
			}
		}
		a.Rows = append(a.Rows, row)
	}
	kt, err := t.GetSortKeysAsTable()
	if err != nil {
		panic(obsError{fmt.Sprintf("GetSortKeysAsTable: %v", err)})
	}
	for i := 0; i < kt.RowCount(); i++ {
		k := Key{}
		k.Col, _ = kt.GetString("colName", i)
		k.Typ, _ = kt.GetString("colType", i)
		k.Rev, _ = kt.GetBool("reverse", i)
		a.Keys = append(a.Keys, k)
	}
	return a
}

// look observes and reports trouble instead of panicking.
func look(t *gt.Table) (a *Abs, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case obsError:
				err = e
			case *Violation, runEnd:
				panic(r)
			default:
				err = fmt.Errorf("panic while reading the table: %v", r)
			}
		}
	}()
	return observe(t), nil
}

// typesOK tells whether every cell holds a value of its column's type.
func (a *Abs) typesOK() error {
	for r, row := range a.Rows {
		for i, v := range row {
			want := goType(a.Types[i])
			got := fmt.Sprintf("%T", v)
			if _, ok := v.(*Abs); ok {
				got = "*gotables.Table"
			}
			if got != want {
				return fmt.Errorf("cell %s[%d] of type %s holds a %s", a.Cols[i], r, a.Types[i], got)
			}
			if t, ok := v.(*Abs); ok && !t.Cycle {
				if err := t.typesOK(); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func diffAbs(want, got *Abs) string {
	w, g := want.canon(), got.canon()
	if w == g {
		return ""
	}
	return firstDiff(w, g)
}

func diffContents(want, got *Abs) string {
	w, g := want.contents(), got.contents()
	if w == g {
		return ""
	}
	return firstDiff(w, g)
}

func firstDiff(w, g string) string {
	i := 0
	for i < len(w) && i < len(g) && w[i] == g[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("expected ...%s... but found ...%s...", cut(w), cut(g))
}

// ---------------------------------------------------------------- generators

var nameStock = []string{"a", "b", "c", "d", "e", "Name", "Age", "_x", "x1", "Total_2", "iD", "zz", "f7", "Key", "val", "Long_Column_Name_9", "q", "w", "r",
	"A", "name", "NAME", "aa", "x", "Total", "B", "a_", "Key_1", "T0",
	"int1", "bools", "Table", "time", "true", "NaN", "byte_", "null", "e5", "nil", "yes", "Inf", "x0F", "string2", "y", "no", "_", "__a",
	"tableSetName", "tables", "tableName", "metadata", "data", "isStructShape", "parentTable", "colName",
	"A_name_that_is_longer_than_most_names_because_somebody_put_a_whole_sentence_into_the_heading_of_a_column"}

// nearName returns a name easily mistaken for n.
func nearName(c *Ctx, n string) string {
	switch c.N(6) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	case 2:
		return n + "_"
	case 3:
		return n[:len(n)-1]
	case 4:
		return strings.ToUpper(n[:1]) + n[1:]
	}
	return n + n
}

// newName returns a name not in used.
func newName(c *Ctx, used []string) string {
	for k := 0; ; k++ {
		n := nameStock[(c.N(len(nameStock))+k)%len(nameStock)]
		if k >= len(nameStock) {
			n = fmt.Sprintf("%s_%d", n, k)
		}
		ok := true
		for _, u := range used {
			if u == n {
				ok = false
			}
		}
		if ok {
			return n
		}
	}
}

func badName(c *Ctx) string {
	return pick(c, []string{"", "1a", "a b", "int", "string", "a-b", "[a]", "*Table", "a.b", " a", "a=", "time.Time", "é€"})
}

type genOpt struct {
	noNaN, noInf bool
	small        bool // few distinct values (keys, duplicates)
	plain        bool // tame strings
	utf8         bool // valid UTF-8 only
	nest         int  // nesting depth still allowed for *Table
	deep         bool // now and then a table in a table in a table, up to 50 levels
	wordy        bool // strings mostly longer than short
	slim         bool // no very long values: a thousand rows of them would be a file no one keeps

	pool map[string][]interface{} // if not nil: values come again and again, and beside close neighbours
}

// poolVal picks a value that has been used before, or a neighbour of one.
func poolVal(c *Ctx, typ string, o genOpt) interface{} {
	p := o.pool[typ]
	if len(p) > 0 && (len(p) >= 6 || c.N(3) > 0) {
		return ownVal(pick(c, p))
	}
	var v interface{}
	if len(p) > 0 && c.N(2) == 0 {
		v = neighbour(c, pick(c, p), o)
	} else {
		fresh := o
		fresh.pool = nil
		v = genVal(c, typ, fresh)
	}
	o.pool[typ] = append(p, v)
	return ownVal(v)
}

func ownVal(v interface{}) interface{} {
	if b, ok := v.([]byte); ok {
		return append([]byte{}, b...)
	}
	return v
}

// neighbour is a value that is easily taken for v.
func neighbour(c *Ctx, v interface{}, o genOpt) interface{} {
	d := c.N(2) == 0
	switch v := v.(type) {
	case int:
		return int(step(int64(v), d))
	case int64:
		return step(v, d)
	case int32: // runes too
		if w := step(int64(v), d); int64(int32(w)) == w && (w < 0xD800 || w > 0xDFFF) && (v < 0 || w >= 0) && (v > 0x10FFFF || w <= 0x10FFFF) {
			return int32(w)
		}
	case int16:
		if w := step(int64(v), d); int64(int16(w)) == w {
			return int16(w)
		}
	case int8:
		if w := step(int64(v), d); int64(int8(w)) == w {
			return int8(w)
		}
	case uint:
		return uint(ustep(uint64(v), d))
	case uint64:
		return ustep(v, d)
	case uint32:
		if w := ustep(uint64(v), d); uint64(uint32(w)) == w {
			return uint32(w)
		}
	case uint16:
		if w := ustep(uint64(v), d); uint64(uint16(w)) == w {
			return uint16(w)
		}
	case uint8:
		if w := ustep(uint64(v), d); uint64(uint8(w)) == w {
			return uint8(w)
		}
	case bool:
		return !v
	case float64:
		w := math.Nextafter(v, float64(2*c.N(2)-1)*math.MaxFloat64)
		switch c.N(3) {
		case 0:
			w = -v
		case 1:
			w = v + 0.25
		}
		if !math.IsNaN(w) && !(o.noInf && math.IsInf(w, 0)) {
			return w
		}
	case float32:
		w := math.Nextafter32(v, float32(2*c.N(2)-1)*math.MaxFloat32)
		switch c.N(3) {
		case 0:
			w = -v
		case 1:
			w = v + 0.25
		}
		if w == w && !(o.noInf && math.IsInf(float64(w), 0)) {
			return w
		}
	case string:
		switch c.N(5) {
		case 0:
			return v + " "
		case 1:
			return strings.ToUpper(v)
		case 2:
			return v + v
		case 3:
			if len(v) > 1 && v[0] < 0x80 && v[1] < 0x80 {
				return v[:1]
			}
		}
		return v + "\x00"
	case []byte:
		if len(v) > 0 && d {
			b := append([]byte{}, v...)
			switch c.N(3) {
			case 0:
				return b[:len(v)-1]
			case 1:
				b[len(b)-1] ^= 1
			default:
				b[c.N(len(b))] ^= byte(1 << uint(c.N(8)))
			}
			return b
		}
		return append(append([]byte{}, v...), 0)
	case time.Time:
		switch c.N(3) {
		case 0:
			return v.In(time.FixedZone("", 3600))
		case 1:
			return v.Add(time.Hour)
		}
		return v.Add(1)
	}
	return v
}

func step(v int64, up bool) int64 {
	if up && v < math.MaxInt64 {
		return v + 1
	}
	if v > math.MinInt64 {
		return v - 1
	}
	return v + 1
}

func ustep(v uint64, up bool) uint64 {
	if v == 0 || up && v < math.MaxUint64 {
		return v + 1
	}
	return v - 1
}

func genInt(c *Ctx, bits uint, small bool) int64 {
	if small {
		return int64(c.N(4)) - 1
	}
	max := int64(1)<<(bits-1) - 1
	switch c.N(6) {
	case 0, 1:
		return int64(c.N(10))
	case 2:
		return -int64(c.N(100))
	case 3:
		return pick(c, []int64{max, -max - 1, max - 1, -1, 0, 1})
	case 4:
		p := uint(c.N(int(bits) - 1))
		return int64(1)<<p + int64(c.N(3)) - 1
	default:
		return int64(c.U(0)) >> (64 - bits)
	}
}

func genUint(c *Ctx, bits uint, small bool) uint64 {
	if small {
		return uint64(c.N(4))
	}
	max := uint64(math.MaxUint64) >> (64 - bits)
	switch c.N(5) {
	case 0, 1:
		return uint64(c.N(10))
	case 2:
		return pick(c, []uint64{max, max - 1, max / 2, max/2 + 1})
	case 3:
		return (uint64(1)<<uint(c.N(int(bits))) + uint64(c.N(3)) - 1) & max
	default:
		return c.U(0) & max
	}
}

var stringStock = []string{"", "x", "hello", "two words", "line\nbreak", "tab\there", `quo"te`, `back\slash`, `\`, `"`, `\"`, "'", "a,b", "{\"k\":1}", "[1 2]", "= ", "#", "null", "true", "123", "1e5", "~",
	"é", "日本語", "\u2028", "😀", "\x00", "\x7f", "\x1b[0m", " lead", "trail ", "  ", "\r\n", "%d %s", "<&>", "- a", ": ", "key: value", "|", ">", "!!int 3", "*", "&a", "@", "`", "[T]", "[[T]]", "0x1F", "\u00a0", "\ufeff", "\u0085", "NaN", "2020-01-02T03:04:05Z", "\\n", "\\u0041", "yes", "\v\f\b\a"}

var stringPieces = []string{" ", " ", " ", "#", "#", "=", "\"", "\"", "'", "\\", "[", "]", ",", ":", "{", "}", "-", "\n", "\t", "//", "/*", "%", "&", "*", "|", "!", "0", "1", "a", "x", ".", "`", "\r", "null", "~", "é"}

func genString(c *Ctx, o genOpt) string {
	if o.small {
		return pick(c, []string{"a", "b", "", "A", "ab"})
	}
	if o.plain {
		return pick(c, []string{"x", "hello", "two words", ""})
	}
	if o.wordy && c.N(3) > 0 {
		return strings.Repeat(pick(c, stringStock)+string(rune('a'+c.N(26))), 3+c.N(12)) + "."
	}
	switch c.N(4) {
	case 0:
		if !o.slim && c.Chance(1, 25) {
			// long
			s := pick(c, stringStock) + string(rune('a'+c.N(26)))
			n := pick(c, []int{70, 130, 260, 1030, 4100, 9000, 70000})
			return strings.Repeat(s, n/len(s)+1)[:n-c.N(3)] + pick(c, []string{"z", "z", "z", " ", "\n", "z\t ", "\x00", "\""})
		}
		return pick(c, stringStock)
	case 1:
		n := c.N(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + c.N(95))
		}
		return string(b)
	case 2:
		n := c.N(6)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if c.Chance(1, 3) {
				sb.WriteString(pick(c, stringStock))
			} else {
				sb.WriteRune(genRune(c, o))
			}
		}
		return sb.String()
	default:
		if c.Chance(1, 2) {
			// pieces that mean something to one format or another, often a few of them again and again
			n := 1 + c.N(8)
			from := stringPieces
			if c.N(3) > 0 {
				n += c.N(6)
				from = []string{" ", "\""}[c.N(2):]
				for i := 1 + c.N(3); i > 0; i-- {
					from = append(from, pick(c, stringPieces))
				}
			}
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteString(pick(c, from))
			}
			return sb.String()
		}
		if o.utf8 || !c.Chance(1, 3) {
			return pick(c, stringStock) + pick(c, stringStock)
		}
		n := c.N(5)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.N(256))
		}
		return string(b)
	}
}

func genRune(c *Ctx, o genOpt) rune {
	if o.small {
		return 'a' + rune(c.N(3))
	}
	switch c.N(4) {
	case 0:
		return 'A' + rune(c.N(26))
	case 1:
		return rune(32 + c.N(95))
	case 2:
		return pick(c, []rune{0, '\n', '\t', '\'', '"', '\\', 0x7f, 0x80, 'é', '世', 0x1F600, 0x10FFFF, 0xFFFD, 0xFEFF, 0x2028, '\r', 1, 0xD7FF, 0xE000})
	default:
		for {
			r := rune(c.N(0x110000))
			if r < 0xD800 || r > 0xDFFF {
				return r
			}
		}
	}
}

func genFloat(c *Ctx, bits int, o genOpt) float64 {
	if o.small {
		return float64(c.N(4)) - 1
	}
	var f float64
	switch c.N(7) {
	case 0, 1:
		f = float64(c.N(200))/8 - 5
	case 2:
		f = float64(c.N(10))
	case 3:
		f = pick(c, []float64{0, math.Copysign(0, -1), 1.5, -2.25, 0.1, 1e21, 1e-7, 123456789.123, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 1<<53 + 2, 1e300, -1e-300, 1e100,
			float64(math.Float32frombits(0x15AE43FD)), float64(math.Float32frombits(0x15AE43FE))})
	case 4:
		if c.N(2) == 0 || o.noNaN {
			f = float64(c.N(1000000)) / 1000
		} else {
			f = math.NaN()
		}
	case 5:
		if o.noInf || c.N(2) == 0 {
			f = -float64(c.N(1000)) / 3
		} else {
			f = math.Inf(1 - 2*c.N(2))
		}
	default:
		f = math.Float64frombits(c.U(0))
	}
	if bits == 32 {
		f = float64(float32(f))
	}
	if o.noNaN && math.IsNaN(f) {
		f = 0
	}
	if o.noInf && math.IsInf(f, 0) {
		f = 1
	}
	return f
}

func genTime(c *Ctx, o genOpt) time.Time {
	if o.small {
		return time.Date(2020, 1, 1+c.N(3), 0, 0, 0, 0, time.UTC)
	}
	loc := time.UTC
	if c.Chance(1, 2) {
		loc = time.FixedZone("", (c.N(27*4)-13*4)*15*60)
	}
	ns := 0
	switch c.N(5) {
	case 1:
		ns = c.N(1000) * 1000000
	case 2:
		ns = c.N(1000000) * 1000
	case 3:
		ns = c.N(1000000000)
	case 4:
		ns = pick(c, []int{1, 999999999, 100000000, 500, 120000000})
	}
	y := 2020
	switch c.N(4) {
	case 1:
		y = 1 + c.N(9998)
	case 2:
		y = pick(c, []int{1, 1969, 1970, 2000, 2038, 9998})
	case 3:
		return time.Time{}
	}
	return time.Date(y, time.Month(1+c.N(12)), 1+c.N(28), c.N(24), c.N(60), c.N(60), ns, loc)
}

// genVal makes a value for a column of type typ. Nested tables come as *Abs.
func genVal(c *Ctx, typ string, o genOpt) interface{} {
	if o.pool != nil && typ != "*Table" {
		return poolVal(c, typ, o)
	}
	switch typ {
	case "int":
		return int(genInt(c, 64, o.small))
	case "int64":
		return genInt(c, 64, o.small)
	case "int32":
		return int32(genInt(c, 32, o.small))
	case "int16":
		return int16(genInt(c, 16, o.small))
	case "int8":
		return int8(genInt(c, 8, o.small))
	case "uint":
		return uint(genUint(c, 64, o.small))
	case "uint64":
		return genUint(c, 64, o.small)
	case "uint32":
		return uint32(genUint(c, 32, o.small))
	case "uint16":
		return uint16(genUint(c, 16, o.small))
	case "uint8", "byte":
		return uint8(genUint(c, 8, o.small))
	case "rune":
		return int32(genRune(c, o))
	case "bool":
		return c.N(2) == 1
	case "string":
		return genString(c, o)
	case "float64":
		return genFloat(c, 64, o)
	case "float32":
		return float32(genFloat(c, 32, o))
	case "[]byte", "[]uint8":
		n := c.N(5)
		if !o.small && !o.slim && c.Chance(1, 10) {
			n = pick(c, []int{40, 40, 40, 300, 5000})
			n = n - c.N(n)
		}
		b := make([]byte, n)
		for i := range b {
			if o.small {
				b[i] = byte(c.N(2))
			} else {
				b[i] = byte(c.N(256))
			}
		}
		return b
	case "time.Time":
		return genTime(c, o)
	case "*Table":
		if o.nest <= 0 || c.Chance(1, 3) {
			return &Abs{Nil: true}
		}
		if o.deep && c.N(4) == 3 {
			return genChain(c, o, 4+c.N(47))
		}
		o.nest--
		return genAbs(c, newName(c, nil), o, 3, 3, nestTypes)
	}
	panic("genVal " + typ)
}

// genChain makes n tables, each in a cell of the one before it.
func genChain(c *Ctx, o genOpt, n int) *Abs {
	c.Probe("tables nested four or more deep")
	o.nest, o.deep = 0, false
	in := genAbs(c, newName(c, nil), o, 3, 3, nestTypes)
	for i := 1; i < n; i++ {
		out := &Abs{Name: newName(c, nil), Struct: c.N(8) == 7}
		cols := 1
		if c.N(4) == 3 {
			cols += 1 + c.N(2)
		}
		at := c.N(cols)
		for k := 0; k < cols; k++ {
			t := "*Table"
			if k != at {
				t = pick(c, flatTypes)
			}
			out.Cols = append(out.Cols, newName(c, out.Cols))
			out.Types = append(out.Types, t)
		}
		rows := 1
		if c.N(8) == 7 {
			rows++
		}
		row := c.N(rows)
		for r := 0; r < rows; r++ {
			v := make([]interface{}, cols)
			for k := range v {
				if k == at && r == row {
					v[k] = in
				} else {
					v[k] = genVal(c, out.Types[k], o)
				}
			}
			out.Rows = append(out.Rows, v)
		}
		in = out
	}
	return in
}

// genAbs makes table contents.
func genAbs(c *Ctx, name string, o genOpt, maxCols, maxRows int, types []string) *Abs {
	a := &Abs{Name: name}
	n := c.N(maxCols + 1)
	for i := 0; i < n; i++ {
		a.Cols = append(a.Cols, newName(c, a.Cols))
		t := pick(c, types)
		if t == "*Table" && o.nest <= 0 {
			t = "int"
		}
		a.Types = append(a.Types, t)
	}
	if n > 0 {
		rows := c.N(maxRows + 1)
		for r := 0; r < rows; r++ {
			row := make([]interface{}, n)
			for i := range row {
				row[i] = genVal(c, a.Types[i], o)
			}
			a.Rows = append(a.Rows, row)
		}
	}
	a.Struct = c.N(8) == 7
	return a
}

// build makes a real table with the contents of a.
func build(a *Abs) (*gt.Table, error) {
	if a.Nil {
		return gt.NewNilTable(), nil
	}
	t, err := gt.NewTable(a.Name)
	if err != nil {
		return nil, err
	}
	for i := range a.Cols {
		if err := t.AppendCol(a.Cols[i], a.Types[i]); err != nil {
			return nil, err
		}
	}
	for r := range a.Rows {
		if err := t.AppendRow(); err != nil {
			return nil, err
		}
		for i, v := range a.Rows[r] {
			x, err := realVal(v)
			if err != nil {
				return nil, err
			}
			if err := t.SetValByColIndex(i, r, x); err != nil {
				return nil, err
			}
		}
	}
	if a.Struct {
		if err := t.SetStructShape(true); err != nil {
			return nil, err
		}
	}
	if len(a.Keys) > 0 {
		var names, revs []string
		for _, k := range a.Keys {
			names = append(names, k.Col)
			if k.Rev {
				revs = append(revs, k.Col)
			}
		}
		if err := t.SetSortKeys(names...); err != nil {
			return nil, err
		}
		if err := t.SetSortKeysReverse(revs...); err != nil {
			return nil, err
		}
	}
	return t, nil
}

func realVal(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case *Abs:
		return build(x)
	case []byte:
		return append([]byte{}, x...), nil
	}
	return v, nil
}

// mustBuild abandons the run when the table cannot be built (another property's business).
func mustBuild(c *Ctx, a *Abs) *gt.Table {
	var t *gt.Table
	var err error
	if p, _ := Try(func() { t, err = build(a) }); p != nil || err != nil {
		c.Abandon("cannot build the starting table")
	}
	got, err := look(t)
	if err != nil || got.canon() != a.canon() {
		c.Abandon("starting table differs from what was asked for")
	}
	return t
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
