package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// A Doc is a table held by a client together with its reference model.
type Doc struct {
	t *gt.Table
	m *Abs
}

// W is the world of table-editing clients.
type W struct {
	c        *Ctx
	clients  [][]*Doc
	check    string // property being decided
	types    []string
	o        genOpt
	maxRows  int
	maxCols  int
	long     bool   // tables may have many rows
	manyKeys bool   // sort keys by the dozen
	last     string // last operation
	serial   int
	picked   []*Doc // what was saved or sent last
}

type op struct {
	name string
	mix  string // properties whose mix has it
	w    int
	run  func(w *W, d *Doc) (desc string, call func() error, apply func())
}

// ---------------------------------------------------------------- reflection helpers

var methodCache = map[string]reflect.Method{}

func method(name string) reflect.Method {
	m, ok := methodCache[name]
	if !ok {
		var found bool
		m, found = reflect.TypeOf((*gt.Table)(nil)).MethodByName(name)
		if !found {
			panic("harness: no method " + name)
		}
		methodCache[name] = m
	}
	return m
}

func errOf(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

// typedSet calls Set<Type>[ByColIndex][MustSet](col, row, val).
func typedSet(t *gt.Table, typ string, col interface{}, row int, val interface{}, must bool) error {
	name := "Set" + accessor(typ)
	if _, ok := col.(int); ok {
		name += "ByColIndex"
	}
	if must {
		name += "MustSet"
	}
	m := method(name)
	var rv reflect.Value
	if val == nil {
		rv = reflect.Zero(m.Type.In(3))
	} else {
		rv = reflect.ValueOf(val)
	}
	out := m.Func.Call([]reflect.Value{reflect.ValueOf(t), reflect.ValueOf(col), reflect.ValueOf(row), rv})
	if len(out) == 0 {
		return nil
	}
	return errOf(out[0])
}

func typedGet(t *gt.Table, typ string, col interface{}, row int, must bool) (interface{}, error) {
	name := "Get" + accessor(typ)
	if _, ok := col.(int); ok {
		name += "ByColIndex"
	}
	if must {
		name += "MustGet"
	}
	out := method(name).Func.Call([]reflect.Value{reflect.ValueOf(t), reflect.ValueOf(col), reflect.ValueOf(row)})
	if len(out) == 1 {
		return out[0].Interface(), nil
	}
	return out[0].Interface(), errOf(out[1])
}

// ---------------------------------------------------------------- operations

func colAny(c *Ctx, m *Abs) int { return c.N(len(m.Cols)) }

func nanOf(typ string) interface{} {
	if typ == "float32" {
		return float32(math.NaN())
	}
	return math.NaN()
}

func isFloat(t string) bool { return t == "float32" || t == "float64" }

func floatCols(m *Abs) []int {
	var r []int
	for i, t := range m.Types {
		if isFloat(t) {
			r = append(r, i)
		}
	}
	return r
}

// sortable types are those with a documented order.
func sortable(typ string) bool {
	switch typ {
	case "*Table", "[]byte", "[]uint8", "byte", "rune", "time.Time":
		return false
	}
	return true
}

func dropKey(m *Abs, col string) {
	var k []Key
	for _, x := range m.Keys {
		if x.Col != col {
			k = append(k, x)
		}
	}
	m.Keys = k
}

func shortVal(v interface{}) string {
	s := canon(v)
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return strings.ReplaceAll(s, "\n", " / ")
}

func deleteColModel(m *Abs, k int) {
	dropKey(m, m.Cols[k])
	m.Cols = append(append([]string{}, m.Cols[:k]...), m.Cols[k+1:]...)
	m.Types = append(append([]string{}, m.Types[:k]...), m.Types[k+1:]...)
	for i, r := range m.Rows {
		m.Rows[i] = append(append([]interface{}{}, r[:k]...), r[k+1:]...)
	}
}

func zeroRow(m *Abs) []interface{} {
	row := make([]interface{}, len(m.Cols))
	for i := range row {
		row[i] = zeroOf(m.Types[i])
	}
	return row
}

func renameColModel(m *Abs, old, nu string) {
	m.Cols[m.col(old)] = nu
	for i := range m.Keys {
		if m.Keys[i].Col == old {
			m.Keys[i].Col = nu
		}
	}
}

func reorderModel(m *Abs, order []int) {
	cols, types := make([]string, len(order)), make([]string, len(order))
	for i, o := range order {
		cols[i], types[i] = m.Cols[o], m.Types[o]
	}
	for r, row := range m.Rows {
		nr := make([]interface{}, len(order))
		for i, o := range order {
			nr[i] = row[o]
		}
		m.Rows[r] = nr
	}
	m.Cols, m.Types = cols, types
}

func permutation(c *Ctx, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + c.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

var histOps []op

func init() {
	histOps = []op{
		{"AppendCol", "1234", 8, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) >= w.maxCols {
				return "", nil, nil
			}
			n, t := newName(w.c, d.m.Cols), pick(w.c, w.types)
			return fmt.Sprintf("AppendCol(%s,%s)", n, t), func() error { return d.t.AppendCol(n, t) }, func() {
				d.m.Cols = append(d.m.Cols, n)
				d.m.Types = append(d.m.Types, t)
				for i := range d.m.Rows {
					d.m.Rows[i] = append(d.m.Rows[i], zeroOf(t))
				}
			}
		}},
		{"AppendRow", "1234", 8, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Rows) >= w.maxRows {
				return "", nil, nil
			}
			return "AppendRow()", func() error { return d.t.AppendRow() }, func() { d.m.Rows = append(d.m.Rows, zeroRow(d.m)) }
		}},
		{"AppendRows", "1234", 3, func(w *W, d *Doc) (string, func() error, func()) {
			n := w.c.N(4)
			if w.long && w.c.N(2) == 0 {
				n = w.c.N(w.maxRows)
			}
			if len(d.m.Rows)+n > w.maxRows {
				return "", nil, nil
			}
			return fmt.Sprintf("AppendRows(%d)", n), func() error { return d.t.AppendRows(n) }, func() {
				for i := 0; i < n; i++ {
					d.m.Rows = append(d.m.Rows, zeroRow(d.m))
				}
			}
		}},
		{"SetVal", "1234", 14, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) == 0 || len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			k, r := colAny(w.c, d.m), w.c.N(len(d.m.Rows))
			v := genVal(w.c, d.m.Types[k], w.o)
			rv, err := realVal(v)
			if err != nil {
				return "", nil, nil
			}
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SetVal(%s,%d,%s)", d.m.Cols[k], r, shortVal(v)), func() error { return d.t.SetVal(d.m.Cols[k], r, rv) }, func() { d.m.Rows[r][k] = v }
			}
			return fmt.Sprintf("SetValByColIndex(%d,%d,%s)", k, r, shortVal(v)), func() error { return d.t.SetValByColIndex(k, r, rv) }, func() { d.m.Rows[r][k] = v }
		}},
		{"SetTyped", "1234", 16, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) == 0 || len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			k, r := colAny(w.c, d.m), w.c.N(len(d.m.Rows))
			typ := d.m.Types[k]
			v := genVal(w.c, typ, w.o)
			rv, err := realVal(v)
			if err != nil {
				return "", nil, nil
			}
			if a := aliasOf(typ); a != "" && w.c.N(3) == 2 {
				typ = a
			}
			var col interface{} = d.m.Cols[k]
			if w.c.N(2) == 1 {
				col = k
			}
			must := w.c.N(4) == 3
			return fmt.Sprintf("Set%s(%v,%d,%s) must=%t", accessor(typ), col, r, shortVal(v), must),
				func() error { return typedSet(d.t, typ, col, r, rv, must) }, func() { d.m.Rows[r][k] = v }
		}},
		{"DeleteRow", "1234", 3, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			r := w.c.N(len(d.m.Rows))
			return fmt.Sprintf("DeleteRow(%d)", r), func() error { return d.t.DeleteRow(r) }, func() {
				d.m.Rows = append(append([][]interface{}{}, d.m.Rows[:r]...), d.m.Rows[r+1:]...)
			}
		}},
		{"DeleteRows", "1234", 2, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			r := w.c.N(len(d.m.Rows))
			l := r + w.c.N(len(d.m.Rows)-r)
			return fmt.Sprintf("DeleteRows(%d,%d)", r, l), func() error { return d.t.DeleteRows(r, l) }, func() {
				d.m.Rows = append(append([][]interface{}{}, d.m.Rows[:r]...), d.m.Rows[l+1:]...)
			}
		}},
		{"DeleteRowsAll", "1234", 1, func(w *W, d *Doc) (string, func() error, func()) {
			return "DeleteRowsAll()", func() error { return d.t.DeleteRowsAll() }, func() { d.m.Rows = nil }
		}},
		{"DeleteCol", "1234", 3, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) == 0 {
				return "", nil, nil
			}
			k := colAny(w.c, d.m)
			if w.c.N(2) == 0 {
				n := d.m.Cols[k]
				return fmt.Sprintf("DeleteCol(%s)", n), func() error { return d.t.DeleteCol(n) }, func() { deleteColModel(d.m, k) }
			}
			return fmt.Sprintf("DeleteColByColIndex(%d)", k), func() error { return d.t.DeleteColByColIndex(k) }, func() { deleteColModel(d.m, k) }
		}},
		{"RenameCol", "1234", 4, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) == 0 {
				return "", nil, nil
			}
			k := colAny(w.c, d.m)
			old, n := d.m.Cols[k], newName(w.c, d.m.Cols)
			if w.c.N(2) == 0 {
				return fmt.Sprintf("RenameCol(%s,%s)", old, n), func() error { return d.t.RenameCol(old, n) }, func() { renameColModel(d.m, old, n) }
			}
			return fmt.Sprintf("RenameColByColIndex(%d,%s)", k, n), func() error { return d.t.RenameColByColIndex(k, n) }, func() { renameColModel(d.m, old, n) }
		}},
		{"SetName", "12", 1, func(w *W, d *Doc) (string, func() error, func()) {
			n := newName(w.c, nil)
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SetName(%s)", n), func() error { return d.t.SetName(n) }, func() { d.m.Name = n }
			}
			return fmt.Sprintf("RenameTable(%s)", n), func() error { return d.t.RenameTable(n) }, func() { d.m.Name = n }
		}},
		{"SetStructShape", "1234", 1, func(w *W, d *Doc) (string, func() error, func()) {
			b := w.c.N(2) == 1
			return fmt.Sprintf("SetStructShape(%t)", b), func() error { return d.t.SetStructShape(b) }, func() { d.m.Struct = b }
		}},
		{"SetCellToZeroValue", "12", 2, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) == 0 || len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			k, r := colAny(w.c, d.m), w.c.N(len(d.m.Rows))
			f := func() { d.m.Rows[r][k] = zeroOf(d.m.Types[k]) }
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SetCellToZeroValue(%s,%d)", d.m.Cols[k], r), func() error { return d.t.SetCellToZeroValue(d.m.Cols[k], r) }, f
			}
			return fmt.Sprintf("SetCellToZeroValueByColIndex(%d,%d)", k, r), func() error { return d.t.SetCellToZeroValueByColIndex(k, r) }, f
		}},
		{"SetColCellsToZeroValue", "12", 1, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Cols) == 0 {
				return "", nil, nil
			}
			k := colAny(w.c, d.m)
			f := func() {
				for r := range d.m.Rows {
					d.m.Rows[r][k] = zeroOf(d.m.Types[k])
				}
			}
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SetColCellsToZeroValue(%s)", d.m.Cols[k]), func() error { return d.t.SetColCellsToZeroValue(d.m.Cols[k]) }, f
			}
			return fmt.Sprintf("SetColCellsToZeroValueByColIndex(%d)", k), func() error { return d.t.SetColCellsToZeroValueByColIndex(k) }, f
		}},
		{"SetRowCellsToZeroValue", "12", 1, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			r := w.c.N(len(d.m.Rows))
			return fmt.Sprintf("SetRowCellsToZeroValue(%d)", r), func() error { return d.t.SetRowCellsToZeroValue(r) }, func() { d.m.Rows[r] = zeroRow(d.m) }
		}},
		{"SetFloatCellToNaN", "12", 2, func(w *W, d *Doc) (string, func() error, func()) {
			fc := floatCols(d.m)
			if len(fc) == 0 || len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			k, r := pick(w.c, fc), w.c.N(len(d.m.Rows))
			f := func() { d.m.Rows[r][k] = nanOf(d.m.Types[k]) }
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SetFloatCellToNaN(%s,%d)", d.m.Cols[k], r), func() error { return d.t.SetFloatCellToNaN(d.m.Cols[k], r) }, f
			}
			return fmt.Sprintf("SetFloatCellToNaNByColIndex(%d,%d)", k, r), func() error { return d.t.SetFloatCellToNaNByColIndex(k, r) }, f
		}},
		{"SetColFloatCellsToNaN", "12", 1, func(w *W, d *Doc) (string, func() error, func()) {
			fc := floatCols(d.m)
			if len(fc) == 0 {
				return "", nil, nil
			}
			k := pick(w.c, fc)
			f := func() {
				for r := range d.m.Rows {
					d.m.Rows[r][k] = nanOf(d.m.Types[k])
				}
			}
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SetColFloatCellsToNaN(%s)", d.m.Cols[k]), func() error { return d.t.SetColFloatCellsToNaN(d.m.Cols[k]) }, f
			}
			return fmt.Sprintf("SetColFloatCellsToNaNByColIndex(%d)", k), func() error { return d.t.SetColFloatCellsToNaNByColIndex(k) }, f
		}},
		{"SetRowFloatCellsToNaN", "12", 1, func(w *W, d *Doc) (string, func() error, func()) {
			if len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			r := w.c.N(len(d.m.Rows))
			return fmt.Sprintf("SetRowFloatCellsToNaN(%d)", r), func() error { return d.t.SetRowFloatCellsToNaN(r) }, func() {
				for _, k := range floatCols(d.m) {
					d.m.Rows[r][k] = nanOf(d.m.Types[k])
				}
			}
		}},
		{"SetAllFloatCellsToNaN", "12", 1, func(w *W, d *Doc) (string, func() error, func()) {
			return "SetAllFloatCellsToNaN()", func() error { return d.t.SetAllFloatCellsToNaN() }, func() {
				for r := range d.m.Rows {
					for _, k := range floatCols(d.m) {
						d.m.Rows[r][k] = nanOf(d.m.Types[k])
					}
				}
			}
		}},
		{"SetSortKeys", "123", 3, func(w *W, d *Doc) (string, func() error, func()) {
			var names []string
			var keys []Key
			for _, k := range permutation(w.c, len(d.m.Cols)) {
				if sortable(d.m.Types[k]) && w.c.N(3) > 0 {
					names = append(names, d.m.Cols[k])
					keys = append(keys, Key{d.m.Cols[k], d.m.Types[k], false})
				}
			}
			if len(keys) > 0 && w.c.N(8) == 7 { // the same key again
				x := w.c.N(len(keys))
				names, keys = append(names, names[x]), append(keys, keys[x])
			}
			return fmt.Sprintf("SetSortKeys(%v)", names), func() error { return d.t.SetSortKeys(names...) }, func() { d.m.Keys = keys }
		}},
		{"SetSortKeysReverse", "123", 3, func(w *W, d *Doc) (string, func() error, func()) {
			var names []string
			for _, k := range d.m.Keys {
				if w.c.N(2) == 1 {
					names = append(names, k.Col)
				}
			}
			return fmt.Sprintf("SetSortKeysReverse(%v)", names), func() error { return d.t.SetSortKeysReverse(names...) }, func() {
				for i := range d.m.Keys {
					for _, n := range names {
						if d.m.Keys[i].Col == n {
							d.m.Keys[i].Rev = true
						}
					}
				}
			}
		}},
		// ---- rearrangements (P03)
		{"Reverse", "3", 4, func(w *W, d *Doc) (string, func() error, func()) {
			return "Reverse()", func() error { return d.t.Reverse() }, func() {
				for l, r := 0, len(d.m.Rows)-1; l < r; l, r = l+1, r-1 {
					d.m.Rows[l], d.m.Rows[r] = d.m.Rows[r], d.m.Rows[l]
				}
			}
		}},
		{"ReorderCols", "3", 6, func(w *W, d *Doc) (string, func() error, func()) {
			p := permutation(w.c, len(d.m.Cols))
			if w.c.N(2) == 0 {
				return fmt.Sprintf("ReorderColsByColIndex(%v)", p), func() error { return d.t.ReorderColsByColIndex(p...) }, func() { reorderModel(d.m, p) }
			}
			var names []string
			for _, k := range p {
				names = append(names, d.m.Cols[k])
			}
			return fmt.Sprintf("ReorderCols(%v)", names), func() error { return d.t.ReorderCols(names...) }, func() { reorderModel(d.m, p) }
		}},
		{"SwapCols", "3", 5, func(w *W, d *Doc) (string, func() error, func()) {
			n := len(d.m.Cols)
			if n < 2 {
				return "", nil, nil
			}
			i := w.c.N(n)
			j := (i + 1 + w.c.N(n-1)) % n
			p := make([]int, n)
			for k := range p {
				p[k] = k
			}
			p[i], p[j] = j, i
			if w.c.N(2) == 0 {
				return fmt.Sprintf("SwapColsByColIndex(%d,%d)", i, j), func() error { return d.t.SwapColsByColIndex(i, j) }, func() { reorderModel(d.m, p) }
			}
			a, b := d.m.Cols[i], d.m.Cols[j]
			return fmt.Sprintf("SwapCols(%s,%s)", a, b), func() error { return d.t.SwapCols(a, b) }, func() { reorderModel(d.m, p) }
		}},
		{"OrderColsBySortKeys", "3", 3, func(w *W, d *Doc) (string, func() error, func()) {
			return "OrderColsBySortKeys()", func() error { return d.t.OrderColsBySortKeys() }, func() {
				var p []int
				is := map[int]bool{}
				for _, k := range d.m.Keys {
					if !is[d.m.col(k.Col)] {
						p = append(p, d.m.col(k.Col))
					}
					is[d.m.col(k.Col)] = true
				}
				for k := range d.m.Cols {
					if !is[k] {
						p = append(p, k)
					}
				}
				reorderModel(d.m, p)
			}
		}},
		{"NewTableReorderCols", "3", 3, func(w *W, d *Doc) (string, func() error, func()) {
			p := permutation(w.c, len(d.m.Cols))
			var names []string
			for _, k := range p {
				names = append(names, d.m.Cols[k])
			}
			byName := w.c.N(2) == 1
			before := d.m.canon()
			return fmt.Sprintf("d=NewTableReorderCols(%v)", names), func() (err error) {
				var nt *gt.Table
				if byName {
					nt, err = d.t.NewTableReorderCols(names...)
				} else {
					nt, err = d.t.NewTableReorderColsByColIndex(p...)
				}
				if err != nil {
					return err
				}
				w.sourceUnchanged(d.t, before)
				d.t = nt
				return nil
			}, func() { reorderModel(d.m, p); d.m.Keys, d.m.Struct = nil, false }
		}},
		{"AppendRowsFromTable", "3", 5, func(w *W, d *Doc) (string, func() error, func()) {
			src := w.anyDoc()
			if src == d || len(src.m.Rows) == 0 || len(d.m.Rows)+len(src.m.Rows) > 2*w.maxRows {
				return "", nil, nil
			}
			for i, cn := range src.m.Cols {
				k := d.m.col(cn)
				if src.m.Types[i] == "*Table" || (k >= 0 && d.m.Types[k] != src.m.Types[i]) {
					return "", nil, nil
				}
			}
			need := false
			for _, cn := range src.m.Cols {
				if d.m.col(cn) < 0 {
					need = true
				}
			}
			lo := w.c.N(len(src.m.Rows))
			hi := lo + w.c.N(len(src.m.Rows)-lo)
			before := src.m.canon()
			return fmt.Sprintf("AppendColsFromTable+AppendRowsFromTable(%s,%d,%d)", src.m.Name, lo, hi), func() error {
					if need {
						if err := d.t.AppendColsFromTable(src.t); err != nil {
							return err
						}
					}
					err := d.t.AppendRowsFromTable(src.t, lo, hi)
					w.sourceUnchanged(src.t, before)
					return err
				}, func() {
					for i, cn := range src.m.Cols {
						if d.m.col(cn) < 0 {
							d.m.Cols = append(d.m.Cols, cn)
							d.m.Types = append(d.m.Types, src.m.Types[i])
							for r := range d.m.Rows {
								d.m.Rows[r] = append(d.m.Rows[r], zeroOf(src.m.Types[i]))
							}
						}
					}
					for r := lo; r <= hi; r++ {
						row := zeroRow(d.m)
						for i, cn := range src.m.Cols {
							row[d.m.col(cn)] = cloneVal(src.m.Rows[r][i])
						}
						d.m.Rows = append(d.m.Rows, row)
					}
				}
		}},
		{"NewTableFromRows", "3", 3, func(w *W, d *Doc) (string, func() error, func()) {
			for _, t := range d.m.Types {
				if t == "*Table" {
					return "", nil, nil
				}
			}
			if len(d.m.Rows) == 0 {
				return "", nil, nil
			}
			lo := w.c.N(len(d.m.Rows))
			hi := lo + w.c.N(len(d.m.Rows)-lo)
			n := newName(w.c, nil)
			before := d.m.canon()
			return fmt.Sprintf("d=NewTableFromRows(%s,%d,%d)", n, lo, hi), func() error {
					nt, err := d.t.NewTableFromRows(n, lo, hi)
					if err != nil {
						return err
					}
					w.sourceUnchanged(d.t, before)
					d.t = nt
					return nil
				}, func() {
					d.m.Name, d.m.Keys, d.m.Struct = n, nil, false
					var rows [][]interface{}
					for r := lo; r <= hi; r++ {
						rows = append(rows, d.m.Rows[r])
					}
					d.m.Rows = rows
				}
		}},
	}
}

func (w *W) sourceUnchanged(t *gt.Table, before string) {
	if w.check != "P03" {
		return
	}
	a, err := look(t)
	if err != nil {
		w.c.Fail("source unreadable after "+w.last, "the source table cannot be read after the operation: %v", err)
	}
	if a.canon() != before {
		w.c.Fail("source changed by "+w.last, "the source table changed: %s", firstDiff(before, a.canon()))
	}
}

func (w *W) anyDoc() *Doc {
	cl := w.clients[w.c.N(len(w.clients))]
	return cl[w.c.N(len(cl))]
}

func newW(c *Ctx, check string) *W {
	w := &W{c: c, check: check, maxRows: 3 + c.N(8), maxCols: 2 + c.N(7)}
	switch c.N(16) {
	case 14:
		// long tables
		w.maxRows, w.maxCols, w.long = pick(c, []int{20, 40, 80, 20, 40, 80, 20, 40, 80, 140, 300, 1100}), 1+c.N(4), true
	case 15:
		// wide tables
		w.maxCols = 10 + c.N(30)
		if c.N(3) == 2 {
			w.maxCols = 66 + c.N(80)
		}
	}
	w.o = genOpt{nest: 1, slim: w.maxRows > 80}
	switch c.N(8) {
	case 5, 6:
		w.o.small = true
	case 7:
		w.o.pool = map[string][]interface{}{}
	}
	// swarm: a random subset of the types
	n := 2 + c.N(6)
	if c.Chance(1, 3) {
		w.types = allTypes
	} else {
		for i := 0; i < n; i++ {
			w.types = append(w.types, pick(c, allTypes))
		}
	}
	return w
}

// opMix is a random weighting of the operations of a property.
func opMix(c *Ctx, mix string) (ops []op, weights []int) {
	for _, o := range histOps {
		if strings.Contains(o.mix, mix) {
			wt := o.w * 2
			switch c.N(5) {
			case 3:
				wt = 1
			case 4:
				wt *= 4
			}
			ops = append(ops, o)
			weights = append(weights, wt)
		}
	}
	return
}

// startRows is the greatest number of rows of a new table.
func (w *W) startRows() int {
	if w.long && w.c.N(2) == 0 {
		return w.maxRows
	}
	return min(w.maxRows, 4)
}

func (w *W) newDoc() *Doc {
	w.serial++
	a := genAbs(w.c, newName(w.c, nil), w.o, w.maxCols, w.startRows(), w.types)
	var t *gt.Table
	if w.c.N(3) == 2 && len(a.Cols) > 0 {
		// from metadata
		var err error
		t, err = gt.NewTableFromMetadata(a.Name, a.Cols, a.Types)
		if err != nil {
			w.c.Abandon("NewTableFromMetadata: " + err.Error())
		}
		a.Rows, a.Struct = nil, false
	} else {
		t = mustBuild(w.c, a)
	}
	return &Doc{t, a}
}

// newDocs makes a client's tables: up to most of them, and now and then a crowd of little ones.
func (w *W) newDocs(most int) (cl []*Doc) {
	c := w.c
	if c.Chance(1, 30) {
		w.maxCols, w.maxRows, w.long = min(w.maxCols, 3), min(w.maxRows, 3), false
		var names []string
		for j := 10 + c.N(16); j > 0; j-- {
			d := w.newDoc()
			n := newName(c, names)
			if err := d.t.SetName(n); err != nil {
				c.Abandon("SetName")
			}
			d.m.Name = n
			names = append(names, n)
			cl = append(cl, d)
		}
		c.Probe("many tables")
		return
	}
	for j := 0; j < 1+c.N(most); j++ {
		cl = append(cl, w.newDoc())
	}
	return
}

// keptSet is a table set that a client made earlier and still has.
type keptSet struct {
	set    *gt.TableSet
	tables []*gt.Table
}

// again finds a set with just these tables that was made earlier, or makes one.
func (c *Ctx) again(tables []*gt.Table, name string) (*gt.TableSet, error) {
	for _, k := range c.sets {
		same := len(k.tables) == len(tables)
		for i := range tables {
			same = same && k.tables[i] == tables[i]
		}
		if same && c.N(3) > 0 && k.set.SetName(name) == nil {
			c.Probe("table set used again")
			return k.set, nil
		}
	}
	s, err := gt.NewTableSet(name)
	if err != nil {
		c.Abandon("NewTableSet")
	}
	for _, t := range tables {
		if err := s.AppendTable(t); err != nil {
			return nil, err
		}
	}
	c.sets = append(c.sets, keptSet{s, tables})
	return s, nil
}

// before gives the documents that were chosen the last time, now and then, if cl still has them all.
func (w *W) before(cl []*Doc) []*Doc {
	if len(w.picked) == 0 || w.c.N(3) > 0 {
		return nil
	}
	for i, d := range w.picked {
		here := false
		for _, x := range cl {
			here = here || x == d
		}
		for _, x := range w.picked[:i] {
			here = here && x.m.Name != d.m.Name
		}
		if !here || d.m.Nil {
			return nil
		}
	}
	return w.picked
}

// step performs one valid operation on a random document and brings the model up to date.
func (w *W) step(ops []op, weights []int) *Doc {
	c := w.c
	ci := c.N(len(w.clients))
	d := w.clients[ci][c.N(len(w.clients[ci]))]
	o := ops[c.Weighted(weights)]
	w.last = o.name
	desc, call, apply := o.run(w, d)
	if call == nil {
		return d
	}
	c.Ops++
	c.Probe("op " + o.name)
	strict := w.check == "P01" || w.check == "P03"
	var err error
	p, st := Try(func() { err = call() })
	if p != nil {
		c.Ev("client %d [%s]: %s: PANIC", ci, d.m.Name, desc)
		if strict {
			c.Fail("panic in "+o.name+" "+panicSite(st), "%s on [%s] panicked: %v\n%s", desc, d.m.canon(), p, trimStack(st))
		}
		c.Abandon("operation panicked")
	}
	c.Ev("client %d [%s]: %s -> %v", ci, d.m.Name, desc, errText(err))
	if err != nil {
		if strict {
			c.Fail("valid operation refused: "+o.name, "%s on %s: refused: %v", desc, d.m.canon(), err)
		}
		c.Abandon("valid operation refused")
	}
	apply()
	got, lerr := look(d.t)
	if lerr != nil {
		if strict {
			c.Fail("unreadable after "+o.name, "after %s the table cannot be read: %v", desc, lerr)
		}
		c.Abandon("table unreadable")
	}
	if diff := diffAbs(d.m, got); diff != "" {
		if strict {
			c.Fail("wrong state after "+o.name, "after %s on [%s]: %s\nexpected: %s\nfound:    %s", desc, d.m.Name, diff, d.m.canon(), got.canon())
		}
		if w.check == "P15" {
			got.Keys = d.m.Keys // the keys that should be there
		}
		d.m = got
	}
	c.hash = hashStr(c.hash, got.canon())
	c.State(got.shape())
	return d
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// others checks that no other client's table changed.
func (w *W) others() {
	for ci, cl := range w.clients {
		for _, d := range cl {
			got, err := look(d.t)
			if err != nil {
				w.c.Fail("bystander unreadable", "after %s, client %d's table [%s] cannot be read: %v", w.last, ci, d.m.Name, err)
			}
			if diff := diffAbs(d.m, got); diff != "" {
				w.c.Fail("bystander changed by "+w.last, "after %s on another table, client %d's table [%s] changed: %s", w.last, ci, d.m.Name, diff)
			}
		}
	}
}

// readAll compares every way of reading with the model.
func (w *W) readAll(d *Doc) {
	c, m, t := w.c, d.m, d.t
	fail := func(what, format string, args ...interface{}) {
		c.Fail("read: "+what, "after %s, table %s\n%s: %s", w.last, m.canon(), what, fmt.Sprintf(format, args...))
	}
	p, st := Try(func() {
		if t.Name() != m.Name || t.ColCount() != len(m.Cols) || t.RowCount() != len(m.Rows) {
			fail("Name/ColCount/RowCount", "%q %d %d", t.Name(), t.ColCount(), t.RowCount())
		}
		if ok, err := t.IsValidTable(); !ok || err != nil {
			fail("IsValidTable", "%t %v", ok, err)
		}
		names, types, err := t.GetColInfoAsSlices()
		if err != nil || fmt.Sprint(names) != fmt.Sprint(m.Cols) || fmt.Sprint(types) != fmt.Sprint(m.Types) {
			fail("GetColInfoAsSlices", "%v %v %v", names, types, err)
		}
		ci, err := t.GetColInfoAsTable()
		if err != nil || ci.RowCount() != len(m.Cols) {
			fail("GetColInfoAsTable", "%v", err)
		}
		for i := range m.Cols {
			a, e1 := ci.GetString("colName", i)
			b, e2 := ci.GetString("colType", i)
			if e1 != nil || e2 != nil || a != m.Cols[i] || b != m.Types[i] {
				fail("GetColInfoAsTable", "row %d: %s %s %v %v", i, a, b, e1, e2)
			}
		}
		absent := newName(c, m.Cols)
		if has, _ := t.HasCol(absent); has {
			fail("HasCol", "absent column %s reported as present", absent)
		}
		if _, err := t.ColIndex(absent); err == nil {
			fail("ColIndex", "absent column %s has an index", absent)
		}
		for _, r := range []int{-1, len(m.Rows)} {
			if has, _ := t.HasRow(r); has {
				fail("HasRow", "row %d reported as present", r)
			}
		}
		for r := range m.Rows {
			if ok, err := t.IsValidRow(r); !ok || err != nil {
				fail("IsValidRow", "%d: %t %v", r, ok, err)
			}
			if has, err := t.HasRow(r); !has || err != nil {
				fail("HasRow", "%d: %t %v", r, has, err)
			}
		}
		for k, cn := range m.Cols {
			typ := m.Types[k]
			if has, err := t.HasCol(cn); !has || err != nil {
				fail("HasCol", "%s: %t %v", cn, has, err)
			}
			if has, err := t.HasColByColIndex(k); !has || err != nil {
				fail("HasColByColIndex", "%d: %t %v", k, has, err)
			}
			if i, err := t.ColIndex(cn); err != nil || i != k {
				fail("ColIndex", "%s: %d %v, expected %d", cn, i, err, k)
			}
			if s, err := t.ColType(cn); err != nil || s != typ {
				fail("ColType", "%s: %s %v", cn, s, err)
			}
			if s, err := t.ColNameByColIndex(k); err != nil || s != cn {
				fail("ColNameByColIndex", "%d: %s %v", k, s, err)
			}
			if is, err := t.IsColType(cn, typ); !is || err != nil {
				fail("IsColType", "%s: %t %v", cn, is, err)
			}
			other := pick(c, allTypes)
			if is, err := t.IsColTypeByColIndex(k, other); err != nil || is != (other == typ) {
				fail("IsColTypeByColIndex", "%d %s: %t %v", k, other, is, err)
			}
			if is, err := t.IsTableCol(cn); err != nil || is != (typ == "*Table") {
				fail("IsTableCol", "%s: %t %v", cn, is, err)
			}
			if is, err := t.IsTableColByColIndex(k); err != nil || is != (typ == "*Table") {
				fail("IsTableColByColIndex", "%d: %t %v", k, is, err)
			}
			vt := pick(c, allTypes)
			if c.N(2) == 0 {
				if vt = typ; c.N(2) == 0 && aliasOf(typ) != "" {
					vt = aliasOf(typ)
				}
			}
			if v, err := realVal(genVal(c, vt, w.o)); err == nil {
				fits := goType(vt) == goType(typ)
				if ok, err := t.IsValidCellValue(cn, v); ok != fits || ok != (err == nil) {
					fail("IsValidCellValue", "a %s in column %s of type %s: %t %v", vt, cn, typ, ok, err)
				}
				if ok, err := t.IsValidColValue(cn, v); ok != fits || ok != (err == nil) {
					fail("IsValidColValue", "a %s in column %s of type %s: %t %v", vt, cn, typ, ok, err)
				}
			}
			strs, err := t.GetColValsAsStrings(cn)
			if err != nil || len(strs) != len(m.Rows) {
				fail("GetColValsAsStrings", "%s: %d strings, %v", cn, len(strs), err)
			}
			if j, err := t.JoinColVals(cn, "|"); err != nil || j != strings.Join(strs, "|") {
				fail("JoinColVals", "%s: %q %v", cn, j, err)
			}
			if j, err := t.JoinColValsByColIndex(k, "|"); err != nil || j != strings.Join(strs, "|") {
				fail("JoinColValsByColIndex", "%d: %q %v", k, j, err)
			}
			for r := range m.Rows {
				want := canon(m.Rows[r][k])
				same := func(what string, v interface{}, err error) {
					if err != nil {
						fail(what, "%s[%d]: %v", cn, r, err)
					}
					if g := canon(v); g != want {
						fail(what, "%s[%d]: %s, expected %s", cn, r, g, want)
					}
				}
				v, err := t.GetVal(cn, r)
				same("GetVal", v, err)
				v, err = t.GetValByColIndex(k, r)
				same("GetValByColIndex", v, err)
				same("GetValMustGet", t.GetValMustGet(cn, r), nil)
				same("GetValByColIndexMustGet", t.GetValByColIndexMustGet(k, r), nil)
				for pass := 0; pass < 2; pass++ {
					typ2 := typ
					if pass == 1 {
						if typ2 = aliasOf(typ); typ2 == "" {
							break
						}
					}
					v, err = typedGet(t, typ2, cn, r, false)
					same("Get"+accessor(typ2), v, err)
					v, err = typedGet(t, typ2, k, r, false)
					same("Get"+accessor(typ2)+"ByColIndex", v, err)
					v, err = typedGet(t, typ2, cn, r, true)
					same("Get"+accessor(typ2)+"MustGet", v, err)
					v, err = typedGet(t, typ2, k, r, true)
					same("Get"+accessor(typ2)+"ByColIndexMustGet", v, err)
				}
				if has, err := t.HasCell(cn, r); !has || err != nil {
					fail("HasCell", "%s[%d]: %t %v", cn, r, has, err)
				}
				if has, err := t.HasCellByColIndex(k, r); !has || err != nil {
					fail("HasCellByColIndex", "%d[%d]: %t %v", k, r, has, err)
				}
				s1, err := t.GetValAsString(cn, r)
				if err != nil || s1 != strs[r] {
					fail("GetValAsString", "%s[%d]: %q %v", cn, r, s1, err)
				}
				s2, err := t.GetValAsStringByColIndex(k, r)
				if err != nil || s2 != s1 {
					fail("GetValAsStringByColIndex", "%d[%d]: %q %v", k, r, s2, err)
				}
				if back, ok := readsBack(typ, s1, m.Rows[r][k]); !ok {
					fail("GetValAsString", "%s[%d]: %q reads back as %v", cn, r, s1, back)
				}
				if ws, ok := plainString(typ, m.Rows[r][k]); ok && ws != s1 {
					fail("GetValAsString", "%s[%d]: %q, expected %q", cn, r, s1, ws)
				}
			}
		}
	})
	if p != nil {
		c.Fail("panic while reading "+panicSite(st), "after %s, table %s\nreading panicked: %v\n%s", w.last, m.canon(), p, trimStack(st))
	}
}

// plainString is the text of a value where there is only one reasonable one.
func plainString(typ string, v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case bool, int, int8, int16, int64, uint, uint16, uint32, uint64:
		return fmt.Sprint(x), true
	case int32:
		if typ == "int32" {
			return fmt.Sprint(x), true
		}
		return string(rune(x)), true
	case uint8:
		return fmt.Sprint(x), true
	case []byte:
		return fmt.Sprint(x), true
	}
	return "", false
}

// readsBack says whether s, the text of a number or a time, stands for the value v.
func readsBack(typ string, s string, v interface{}) (interface{}, bool) {
	switch x := v.(type) {
	case float32:
		f, err := strconv.ParseFloat(s, 32)
		return f, err == nil && (float32(f) == x && math.Signbit(f) == math.Signbit(float64(x)) || f != f && x != x)
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil && (f == x && math.Signbit(f) == math.Signbit(x) || f != f && x != x)
	case time.Time:
		t, err := time.Parse(time.RFC3339Nano, s)
		return t, err == nil && t.Equal(x)
	}
	return nil, true
}

func runP01(c *Ctx) {
	w := newW(c, "P01")
	ops, weights := opMix(c, "1")
	for i := 0; i < 1+c.N(3); i++ {
		var cl []*Doc
		for j := 0; j < 1+c.N(2); j++ {
			cl = append(cl, w.newDoc())
		}
		w.clients = append(w.clients, cl)
	}
	c.Plan(10, 60)
	for c.Step() {
		d := w.step(ops, weights)
		if c.Chance(1, 5) {
			w.readAll(d)
		}
		if c.Chance(1, 8) {
			w.others()
		}
	}
	w.others()
	for _, cl := range w.clients {
		for _, d := range cl {
			w.readAll(d)
		}
	}
	c.Nontriv = c.Ops >= 5
}

func runP03(c *Ctx) {
	w := newW(c, "P03")
	w.o.nest = 1
	ops, weights := opMix(c, "3")
	for i := 0; i < 2; i++ {
		var cl []*Doc
		for j := 0; j < 1+c.N(2); j++ {
			cl = append(cl, w.newDoc())
		}
		w.clients = append(w.clients, cl)
	}
	c.Plan(8, 40)
	for c.Step() {
		d := w.step(ops, weights)
		w.cellsByName(d)
		if c.Chance(1, 4) {
			w.others()
		}
	}
	w.others()
	c.Nontriv = c.Ops >= 5
}

// cellsByName reads every cell under its column name, typed.
func (w *W) cellsByName(d *Doc) {
	p, st := Try(func() {
		for k, cn := range d.m.Cols {
			for r := range d.m.Rows {
				v, err := typedGet(d.t, d.m.Types[k], cn, r, false)
				if err != nil || canon(v) != canon(d.m.Rows[r][k]) {
					w.c.Fail("cell misplaced after "+w.last, "after %s on %s: %s[%d] reads %s (%v), expected %s", w.last, d.m.canon(), cn, r, shortVal(v), err, shortVal(d.m.Rows[r][k]))
				}
			}
		}
	})
	if p != nil {
		w.c.Fail("panic reading by name "+panicSite(st), "after %s: %v\n%s", w.last, p, trimStack(st))
	}
}

var _ = sort.Strings

func init() {
	register(&PropDef{ID: "P01", Mode: "plain", Run: runP01, Quick: 80000, Thorough: 1200000, Batch: 200,
		Rule: "each run: 1-3 clients with 1-2 tables each, 10-60 seeded edits (swarm-weighted mix, random type subset) interleaved by the scheduler, every table observed after its edit, all read paths compared with the reference model at seeded points; non-trivial: at least 5 edits took effect; distinct by hash of the whole event log and states",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "client interleaving, map iteration order and random numbers decided by the simulator"})
	register(&PropDef{ID: "P03", Mode: "plain", Run: runP03, Quick: 120000, Thorough: 1200000, Batch: 200,
		Rule: "each run: two clients with 1-2 tables each, 8-40 seeded rearrangements mixed with edits, every cell read by name and type after each step and bystander tables compared; non-trivial: at least 5 operations took effect; distinct by hash of event log and states",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "client interleaving, map iteration order and random numbers decided by the simulator"})
}
