package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P02: an operation that reports failure changes nothing

type atomWorld struct {
	W
	sets []*setDoc
}

// picture is everything that can be observed of all tables and sets, parents of nested tables included.
func (w *atomWorld) picture(extra ...*gt.Table) string {
	var b strings.Builder
	ids := map[*gt.Table]int{nil: 0}
	var number func(t *gt.Table)
	number = func(t *gt.Table) {
		if t == nil {
			return
		}
		if _, ok := ids[t]; ok {
			return
		}
		ids[t] = len(ids)
		if isNil, _ := t.IsNilTable(); isNil {
			return
		}
		for k := 0; k < t.ColCount(); k++ {
			if ct, _ := t.ColTypeByColIndex(k); ct == "*Table" {
				for r := 0; r < t.RowCount(); r++ {
					if x, err := t.GetTableByColIndex(k, r); err == nil {
						number(x)
					}
				}
			}
		}
	}
	var roots []*gt.Table
	for _, cl := range w.clients {
		for _, d := range cl {
			roots = append(roots, d.t)
		}
	}
	for _, s := range w.sets {
		fmt.Fprintf(&b, "set [[%s]] file %q:", s.s.Name(), s.s.FileName())
		for i := 0; i < s.s.TableCount(); i++ {
			t, err := s.s.GetTableByTableIndex(i)
			if err != nil || t == nil {
				fmt.Fprintf(&b, " <unreadable %v>", err)
				continue
			}
			roots = append(roots, t)
			number(t)
			fmt.Fprintf(&b, " #%d[%s]", ids[t], t.Name())
		}
		b.WriteByte('\n')
	}
	roots = append(roots, extra...)
	for _, t := range roots {
		number(t)
	}
	for _, t := range roots {
		a, err := look(t)
		if err != nil {
			fmt.Fprintf(&b, "#%d unreadable: %v\n", ids[t], err)
			continue
		}
		fmt.Fprintf(&b, "#%d %s\n", ids[t], a.canon())
	}
	var all []*gt.Table
	for t := range ids {
		if t != nil {
			all = append(all, t)
		}
	}
	sort.Slice(all, func(i, j int) bool { return ids[all[i]] < ids[all[j]] })
	for _, t := range all {
		p := t.ParentTable()
		n, ok := ids[p]
		if !ok {
			n = -1
		}
		fmt.Fprintf(&b, "#%d parent #%d\n", ids[t], n)
	}
	return b.String()
}

// wrongVal is a value that does not fit a column of type typ.
func wrongVal(c *Ctx, typ string, o genOpt) (interface{}, string) {
	for {
		t := pick(c, allTypes)
		if goType(t) == goType(typ) {
			continue
		}
		v, err := realVal(genVal(c, t, o))
		if err != nil {
			continue
		}
		return v, t
	}
}

func (w *atomWorld) badCol(m *Abs) string {
	c := w.c
	for {
		var n string
		switch c.N(4) {
		case 0:
			n = newName(c, m.Cols)
		case 1:
			n = ""
		case 2:
			n = badName(c)
		default:
			if len(m.Cols) == 0 {
				continue
			}
			n = nearName(c, pick(c, m.Cols))
		}
		if m.col(n) < 0 {
			return n
		}
	}
}

func badIndex(c *Ctx, n int) int {
	return pick(c, []int{n, -1, n + 1, -2, n + 1000, 1 << 62, -1 << 63})
}

func badType(c *Ctx) string {
	return pick(c, []string{"integer", "", "Int", "table", "[]int", "*table", "[]string", "error", "int128", "Time", "time", "interface{}", "[]", "byte ", "string\n", "map[string]int"})
}

type badCall struct {
	name  string
	desc  string
	call  func() error
	must  bool        // a Must form: it panics by design instead of returning an error
	extra []*gt.Table // other tables that took part
}

// wantErr turns a query into a call: answering is a failure to report.
func wantErr(v interface{}, err error) error { return err }

// invalid makes one invalid call on d, or returns nil when there is none for the kind drawn.
func (w *atomWorld) invalid(d *Doc) *badCall {
	c, t, m := w.c, d.t, d.m
	b := &badCall{}
	mk := func(name, desc string, call func() error) *badCall {
		b.name, b.desc, b.call = name, name+desc, call
		return b
	}
	nc, nr := len(m.Cols), len(m.Rows)
	goodCol := func() (int, string) {
		k := c.N(nc)
		return k, m.Cols[k]
	}
	switch kind := c.N(36); kind {
	case 0: // columns in
		switch c.N(3) {
		case 0:
			if nc == 0 {
				return nil
			}
			_, n := goodCol()
			typ := pick(c, allTypes)
			return mk("AppendCol", fmt.Sprintf("(%q, %s): duplicate", n, typ), func() error { return t.AppendCol(n, typ) })
		case 1:
			n, typ := badName(c), pick(c, allTypes)
			return mk("AppendCol", fmt.Sprintf("(%q, %s): bad name", n, typ), func() error { return t.AppendCol(n, typ) })
		default:
			n, typ := newName(c, m.Cols), badType(c)
			return mk("AppendCol", fmt.Sprintf("(%q, %q): bad type", n, typ), func() error { return t.AppendCol(n, typ) })
		}
	case 1:
		if c.N(2) == 0 {
			n := w.badCol(m)
			return mk("DeleteCol", fmt.Sprintf("(%q): unknown", n), func() error { return t.DeleteCol(n) })
		}
		i := badIndex(c, nc)
		return mk("DeleteColByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { return t.DeleteColByColIndex(i) })
	case 2:
		switch c.N(5) {
		case 0:
			o, n := w.badCol(m), newName(c, m.Cols)
			return mk("RenameCol", fmt.Sprintf("(%q, %q): unknown", o, n), func() error { return t.RenameCol(o, n) })
		case 1:
			i, n := badIndex(c, nc), newName(c, m.Cols)
			return mk("RenameColByColIndex", fmt.Sprintf("(%d, %q) of %d", i, n, nc), func() error { return t.RenameColByColIndex(i, n) })
		case 2:
			if nc < 2 {
				return nil
			}
			i, o := goodCol()
			j := (i + 1 + c.N(nc-1)) % nc
			n := m.Cols[j]
			if c.N(2) == 0 {
				return mk("RenameCol", fmt.Sprintf("(%q, %q): duplicate", o, n), func() error { return t.RenameCol(o, n) })
			}
			return mk("RenameColByColIndex", fmt.Sprintf("(%d, %q): duplicate", i, n), func() error { return t.RenameColByColIndex(i, n) })
		default:
			if nc == 0 {
				return nil
			}
			i, o := goodCol()
			n := badName(c)
			if c.N(2) == 0 {
				return mk("RenameCol", fmt.Sprintf("(%q, %q): bad name", o, n), func() error { return t.RenameCol(o, n) })
			}
			return mk("RenameColByColIndex", fmt.Sprintf("(%d, %q): bad name", i, n), func() error { return t.RenameColByColIndex(i, n) })
		}
	case 3, 4, 5, 6, 7, 8: // cells
		return w.invalidCell(d, b)
	case 9:
		if c.N(2) == 0 {
			i := badIndex(c, nr)
			return mk("DeleteRow", fmt.Sprintf("(%d) of %d", i, nr), func() error { return t.DeleteRow(i) })
		}
		switch {
		case nr >= 2 && c.N(3) == 0:
			f := 1 + c.N(nr-1)
			l := c.N(f)
			return mk("DeleteRows", fmt.Sprintf("(%d,%d) of %d", f, l, nr), func() error { return t.DeleteRows(f, l) })
		case nr >= 1 && c.N(2) == 0:
			f, l := c.N(nr), badIndex(c, nr)
			return mk("DeleteRows", fmt.Sprintf("(%d,%d) of %d", f, l, nr), func() error { return t.DeleteRows(f, l) })
		default:
			f, l := badIndex(c, nr), badIndex(c, nr)
			return mk("DeleteRows", fmt.Sprintf("(%d,%d) of %d", f, l, nr), func() error { return t.DeleteRows(f, l) })
		}
	case 10:
		n := -1 - c.N(3)
		return mk("AppendRows", fmt.Sprintf("(%d)", n), func() error { return t.AppendRows(n) })
	case 11:
		n := badName(c)
		if c.N(2) == 0 {
			return mk("SetName", fmt.Sprintf("(%q)", n), func() error { return t.SetName(n) })
		}
		return mk("RenameTable", fmt.Sprintf("(%q)", n), func() error { return t.RenameTable(n) })
	case 12, 13: // sort keys
		var good []string
		for k, typ := range m.Types {
			if sortable(typ) {
				good = append(good, m.Cols[k])
			}
		}
		bad := w.badCol(m)
		for k, typ := range m.Types {
			if !sortable(typ) && c.N(2) == 0 {
				bad = m.Cols[k]
			}
		}
		var list []string
		for _, n := range good {
			if c.N(2) == 0 {
				list = append(list, n)
			}
		}
		p := c.N(len(list) + 1)
		list = append(list[:p:p], append([]string{bad}, list[p:]...)...)
		var notKey string
		for _, n := range append([]string{w.badCol(m)}, m.Cols...) {
			is := false
			for _, k := range m.Keys {
				is = is || k.Col == n
			}
			if !is {
				notKey = n
				if c.N(2) == 0 {
					break
				}
			}
		}
		switch c.N(8) {
		case 0, 1:
			return mk("SetSortKeys", fmt.Sprintf("(%q): %q cannot be a key", list, bad), func() error { return t.SetSortKeys(list...) })
		case 2:
			return mk("AppendSortKey", fmt.Sprintf("(%q)", bad), func() error { return t.AppendSortKey(bad) })
		case 3:
			return mk("DeleteSortKey", fmt.Sprintf("(%q): not a key", notKey), func() error { return t.DeleteSortKey(notKey) })
		case 4, 5:
			var rl []string
			for _, k := range m.Keys {
				if c.N(2) == 0 {
					rl = append(rl, k.Col)
				}
			}
			rl = append(rl, notKey)
			return mk("SetSortKeysReverse", fmt.Sprintf("(%q): %q is not a key", rl, notKey), func() error { return t.SetSortKeysReverse(rl...) })
		case 6:
			return mk("Sort", fmt.Sprintf("(%q): %q cannot be a key", list, bad), func() error { return t.Sort(list...) })
		default:
			return mk("SortSimple", fmt.Sprintf("(%q): %q cannot be a key", list, bad), func() error { return t.SortSimple(list...) })
		}
	case 14:
		if len(m.Keys) > 0 {
			return nil
		}
		switch c.N(4) {
		case 0:
			return mk("Sort", "() without keys", func() error { return t.Sort() })
		case 1:
			return mk("SortUnique", "() without keys", func() error { _, err := t.SortUnique(); return err })
		case 2:
			return mk("SearchFirst", "(1) without keys", func() error { _, err := t.SearchFirst(1); return err })
		default:
			return mk("SearchRange", "(1) without keys", func() error { _, _, err := t.SearchRange(1); return err })
		}
	case 15, 16: // searches with wrong values
		if len(m.Keys) == 0 {
			return nil
		}
		var vals []interface{}
		for _, k := range m.Keys {
			v, _ := realVal(genVal(c, k.Typ, w.o))
			vals = append(vals, v)
		}
		switch c.N(3) {
		case 0:
			vals = vals[:c.N(len(vals))]
		case 1:
			vals = append(vals, 1)
		default:
			i := c.N(len(vals))
			vals[i], _ = wrongVal(c, m.Keys[i].Typ, w.o)
			if c.N(5) == 4 {
				vals[i] = nil
			}
		}
		ds := fmt.Sprintf(" for keys %v with %d values", m.Keys, len(vals))
		switch c.N(5) {
		case 0:
			return mk("Search", ds, func() error { _, err := t.Search(vals...); return err })
		case 1:
			return mk("SearchFirst", ds, func() error { _, err := t.SearchFirst(vals...); return err })
		case 2:
			return mk("SearchLast", ds, func() error { _, err := t.SearchLast(vals...); return err })
		case 3:
			return mk("SearchRange", ds, func() error { _, _, err := t.SearchRange(vals...); return err })
		default:
			return mk("NewTableFromRowsBySearchRange", ds, func() error { _, err := t.NewTableFromRowsBySearchRange("n", vals...); return err })
		}
	case 17: // reorder
		names := append([]string{}, m.Cols...)
		idx := permutation(c, nc)
		switch c.N(4) {
		case 0:
			names, idx = append(names, newName(c, m.Cols)), append(idx, nc)
		case 1:
			if nc == 0 {
				return nil
			}
			names, idx = names[:nc-1], idx[:nc-1]
		case 2:
			if nc < 2 {
				return nil
			}
			i := c.N(nc)
			names[i], idx[i] = names[(i+1)%nc], idx[(i+1)%nc]
		default:
			if nc == 0 {
				return nil
			}
			i := c.N(nc)
			names[i], idx[i] = w.badCol(m), badIndex(c, nc)
		}
		switch c.N(4) {
		case 0:
			return mk("ReorderCols", fmt.Sprintf("(%q)", names), func() error { return t.ReorderCols(names...) })
		case 1:
			return mk("ReorderColsByColIndex", fmt.Sprintf("(%v) of %d", idx, nc), func() error { return t.ReorderColsByColIndex(idx...) })
		case 2:
			return mk("NewTableReorderCols", fmt.Sprintf("(%q)", names), func() error { _, err := t.NewTableReorderCols(names...); return err })
		default:
			return mk("NewTableReorderColsByColIndex", fmt.Sprintf("(%v) of %d", idx, nc), func() error { _, err := t.NewTableReorderColsByColIndex(idx...); return err })
		}
	case 18: // swap
		if c.N(2) == 0 {
			i, j := badIndex(c, nc), badIndex(c, nc)
			if nc > 0 && c.N(2) == 0 {
				if c.N(2) == 0 {
					i = c.N(nc)
				} else {
					j = c.N(nc)
				}
			}
			return mk("SwapColsByColIndex", fmt.Sprintf("(%d,%d) of %d", i, j, nc), func() error { return t.SwapColsByColIndex(i, j) })
		}
		x, y := w.badCol(m), w.badCol(m)
		if nc > 0 && c.N(2) == 0 {
			if c.N(2) == 0 {
				_, x = goodCol()
			} else {
				_, y = goodCol()
			}
		}
		return mk("SwapCols", fmt.Sprintf("(%q,%q)", x, y), func() error { return t.SwapCols(x, y) })
	case 19, 20, 21: // tables made from or joined with other tables
		return w.invalidJoin(d, b)
	case 22:
		switch c.N(3) {
		case 0:
			n := badName(c)
			return mk("NewTable", fmt.Sprintf("(%q)", n), func() error { _, err := gt.NewTable(n); return err })
		case 1:
			names, types := append([]string{}, m.Cols...), append([]string{}, m.Types...)
			switch c.N(4) {
			case 0:
				names = append(names, newName(c, names))
			case 1:
				if nc == 0 {
					return nil
				}
				names, types = append(names, names[c.N(nc)]), append(types, "int")
			case 2:
				names, types = append(names, newName(c, names)), append(types, badType(c))
			default:
				names, types = append(names, badName(c)), append(types, "int")
			}
			return mk("NewTableFromMetadata", fmt.Sprintf("(%q, %q)", names, types), func() error { _, err := gt.NewTableFromMetadata("t", names, types); return err })
		default:
			f, l := 0, badIndex(c, nr)
			n := newName(c, nil)
			switch c.N(3) {
			case 0:
				f = badIndex(c, nr)
				if l < f {
					l = f
				}
			case 1:
				n = badName(c)
				l = nr - 1
			}
			if l < f || l > 1<<40 {
				l = max(f, nr)
			}
			if f < 0 && l > 100 || f > 1<<40 {
				return nil
			}
			if n != "" && nr == 0 && f == 0 && l < 0 {
				return nil
			}
			return mk("NewTableFromRows", fmt.Sprintf("(%q,%d,%d) of %d", n, f, l, nr), func() error { _, err := t.NewTableFromRows(n, f, l); return err })
		}
	case 23, 24, 25, 26: // sets
		return w.invalidSet(b)
	case 27, 28: // nil receivers
		return w.nilReceiver(b)
	case 29: // nil tables
		nt := gt.NewNilTable()
		b.extra = append(b.extra, nt)
		switch c.N(17) {
		case 3:
			return mk("AppendRow", " on a NilTable", func() error { return nt.AppendRow() })
		case 4:
			return mk("AppendRows", " on a NilTable", func() error { return nt.AppendRows(c.N(3)) })
		case 5:
			return mk("GetTableAsCSV", " on a NilTable", func() error { _, err := nt.GetTableAsCSV(); return err })
		case 6:
			return mk("GetColInfoAsTable", " on a NilTable", func() error { _, err := nt.GetColInfoAsTable(); return err })
		case 7:
			return mk("GetColInfoAsSlices", " on a NilTable", func() error { _, _, err := nt.GetColInfoAsSlices(); return err })
		case 8:
			return mk("GetVal", " on a NilTable", func() error { _, err := nt.GetVal("a", 0); return err })
		case 9:
			return mk("GetValByColIndex", " on a NilTable", func() error { _, err := nt.GetValByColIndex(0, 0); return err })
		case 10:
			return mk("GetValAsString", " on a NilTable", func() error { _, err := nt.GetValAsString("a", 0); return err })
		case 11:
			return mk("GetValAsStringByColIndex", " on a NilTable", func() error { _, err := nt.GetValAsStringByColIndex(0, 0); return err })
		case 12:
			return mk("GetColValsAsStrings", " on a NilTable", func() error { _, err := nt.GetColValsAsStrings("a"); return err })
		case 13:
			return mk("SetRowCellsToZeroValue", " on a NilTable", func() error { return nt.SetRowCellsToZeroValue(0) })
		case 14:
			return mk("AppendRowsFromTable", " from a NilTable", func() error { return t.AppendRowsFromTable(nt, 0, 0) })
		case 15:
			return mk("AppendColsFromTable", " from a NilTable", func() error { return t.AppendColsFromTable(nt) })
		case 16:
			return mk("DeleteRow", " on a NilTable", func() error { return nt.DeleteRow(0) })
		case 0:
			return mk("AppendColsFromTable", " on a NilTable", func() error { return nt.AppendColsFromTable(t) })
		case 1:
			return mk("AppendRowsFromTable", " on a NilTable", func() error { return nt.AppendRowsFromTable(t, 0, max(0, nr-1)) })
		default:
			return mk("AppendCol", " on a NilTable", func() error { return nt.AppendCol("a", "int") })
		}
	case 30:
		r1, r2 := badIndex(c, nr), badIndex(c, nr)
		if nr > 0 && c.N(2) == 0 {
			r1 = c.N(nr)
		}
		return mk("CompareRows", fmt.Sprintf("(%d,%d) of %d", r1, r2, nr), func() error { _, err := t.CompareRows(r1, r2); return err })
	case 31: // metadata queries
		n, i := w.badCol(m), badIndex(c, nc)
		switch c.N(13) {
		case 12:
			h := make([]string, nc)
			for j := range h {
				h[j] = newName(c, nil)
			}
			if nc > 1 && c.N(2) == 0 {
				h = h[1:]
			} else {
				h = append(h, "extra")
			}
			return mk("GetTableAsCSV", fmt.Sprintf("(%q) of %d", h, nc), func() error { _, err := t.GetTableAsCSV(h...); return err })
		case 0:
			return mk("ColType", fmt.Sprintf("(%q)", n), func() error { _, err := t.ColType(n); return err })
		case 1:
			return mk("ColTypeByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { _, err := t.ColTypeByColIndex(i); return err })
		case 2:
			return mk("ColIndex", fmt.Sprintf("(%q)", n), func() error { _, err := t.ColIndex(n); return err })
		case 3:
			return mk("ColName", fmt.Sprintf("(%d) of %d", i, nc), func() error { _, err := t.ColName(i); return err })
		case 4:
			return mk("ColNameByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { _, err := t.ColNameByColIndex(i); return err })
		case 5:
			return mk("IsColType", fmt.Sprintf("(%q)", n), func() error { _, err := t.IsColType(n, "int"); return err })
		case 6:
			return mk("IsColTypeByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { _, err := t.IsColTypeByColIndex(i, "int"); return err })
		case 7:
			return mk("IsSortKey", fmt.Sprintf("(%q)", n), func() error { _, err := t.IsSortKey(n); return err })
		case 8:
			return mk("IsTableCol", fmt.Sprintf("(%q)", n), func() error { _, err := t.IsTableCol(n); return err })
		case 9:
			return mk("IsTableColByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { _, err := t.IsTableColByColIndex(i); return err })
		case 10:
			return mk("GetColValsAsStrings", fmt.Sprintf("(%q)", n), func() error { _, err := t.GetColValsAsStrings(n); return err })
		default:
			if c.N(2) == 0 {
				return mk("JoinColVals", fmt.Sprintf("(%q)", n), func() error { _, err := t.JoinColVals(n, ","); return err })
			}
			return mk("JoinColValsByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { _, err := t.JoinColValsByColIndex(i, ","); return err })
		}
	case 32:
		n, r := w.badCol(m), 0
		if c.N(2) == 0 && nc > 0 {
			_, n = goodCol()
			r = badIndex(c, nr)
			if c.N(2) == 0 {
				return mk("GetValAsString", fmt.Sprintf("(%q,%d) of %d", n, r, nr), func() error { _, err := t.GetValAsString(n, r); return err })
			}
		}
		if m.col(n) < 0 && c.N(2) == 0 {
			return mk("GetCellInfo", fmt.Sprintf("(%q,%d)", n, r), func() error { _, err := t.GetCellInfo(n, r); return err })
		}
		i := badIndex(c, nc)
		if c.N(2) == 0 {
			return mk("GetCellInfoByColIndex", fmt.Sprintf("(%d,%d) of %d", i, r, nc), func() error { _, err := t.GetCellInfoByColIndex(i, r); return err })
		}
		return mk("GetValAsStringByColIndex", fmt.Sprintf("(%d,%d) of %d", i, r, nc), func() error { _, err := t.GetValAsStringByColIndex(i, r); return err })
	case 33: // false answers, never an error-free "yes"
		n, i, r := w.badCol(m), badIndex(c, nc), badIndex(c, nr)
		ng, ig, rg := n, i, r // of a cell, only one of the two is wrong (or both)
		switch c.N(3) {
		case 0:
			if nc > 0 {
				ig, ng = goodCol()
			}
		case 1:
			if nr > 0 {
				rg = c.N(nr)
			}
		}
		yes := func(b bool, err error) error {
			if b && err == nil {
				return nil
			}
			return fmt.Errorf("no: %v", err)
		}
		switch c.N(5) {
		case 0:
			return mk("HasCol", fmt.Sprintf("(%q)", n), func() error { return yes(t.HasCol(n)) })
		case 1:
			return mk("HasColByColIndex", fmt.Sprintf("(%d) of %d", i, nc), func() error { return yes(t.HasColByColIndex(i)) })
		case 2:
			return mk("HasRow", fmt.Sprintf("(%d) of %d", r, nr), func() error { return yes(t.HasRow(r)) })
		case 3:
			return mk("HasCell", fmt.Sprintf("(%q,%d)", ng, rg), func() error { return yes(t.HasCell(ng, rg)) })
		default:
			return mk("HasCellByColIndex", fmt.Sprintf("(%d,%d)", ig, rg), func() error { return yes(t.HasCellByColIndex(ig, rg)) })
		}
	case 34:
		if nc == 0 {
			return nil
		}
		k, n := goodCol()
		v, vt := wrongVal(c, m.Types[k], w.o)
		yes := func(b bool, err error) error {
			if b && err == nil {
				return nil
			}
			return fmt.Errorf("no: %v", err)
		}
		if c.N(2) == 0 {
			return mk("IsValidColValue", fmt.Sprintf("(%q, a %s) of type %s", n, vt, m.Types[k]), func() error { return yes(t.IsValidColValue(n, v)) })
		}
		return mk("IsValidCellValue", fmt.Sprintf("(%q, a %s) of type %s", n, vt, m.Types[k]), func() error { return yes(t.IsValidCellValue(n, v)) })
	case 35:
		return w.invalidCell(d, b)
	}
	return nil
}

func (w *atomWorld) invalidCell(d *Doc, b *badCall) *badCall {
	c, t, m := w.c, d.t, d.m
	nc, nr := len(m.Cols), len(m.Rows)
	k, r := 0, 0
	byName := c.N(2) == 0
	typ := pick(c, allTypes) // type the call is for
	colText := ""
	var col interface{}
	why := c.N(4)
	if nc == 0 {
		why = 0
	}
	if why == 3 && nr == 0 {
		why = 1
	}
	if nr > 0 {
		r = c.N(nr)
	}
	switch why {
	case 0: // unknown column
		if byName {
			col = w.badCol(m)
		} else {
			col = badIndex(c, nc)
		}
	case 1, 2: // row out of range
		k = c.N(nc)
		typ = m.Types[k]
		r = badIndex(c, nr)
		col = k
		if byName {
			col = m.Cols[k]
		}
	case 3: // wrong type
		k = c.N(nc)
		col = k
		if byName {
			col = m.Cols[k]
		}
		for goType(typ) == goType(m.Types[k]) {
			typ = pick(c, allTypes)
		}
	}
	colText = fmt.Sprintf("%#v", col)
	v, err := realVal(genVal(c, typ, w.o))
	if err != nil {
		return nil
	}
	if x, ok := v.(*gt.Table); ok {
		b.extra = append(b.extra, x)
		if c.N(3) == 0 { // the table offered already has a place
			for _, cl := range w.clients {
				for _, e := range cl {
					for kk, ty := range e.m.Types {
						if ty == "*Table" && len(e.m.Rows) > 0 && c.N(2) == 0 {
							if y, err := e.t.GetTableByColIndex(kk, 0); err == nil {
								v = y
							}
						}
					}
				}
			}
		}
	}
	ds := fmt.Sprintf("(%s, %d, a %s) [%s]", colText, r, typ, []string{"unknown column", "row out of range", "row out of range", "wrong type"}[why])
	mk := func(name string, call func() error) *badCall {
		b.name, b.desc, b.call = name, name+ds, call
		return b
	}
	i, isIdx := col.(int)
	n, _ := col.(string)
	suffix := ""
	if isIdx {
		suffix = "ByColIndex"
	}
	switch c.N(9) {
	case 0, 1: // typed set
		b.must = c.N(5) == 4
		nm := "Set" + accessor(typ) + suffix
		if b.must {
			nm += "MustSet"
		}
		must := b.must
		return mk(nm, func() error { return typedSet(t, typ, col, r, v, must) })
	case 2, 3:
		b.must = c.N(5) == 4
		nm := "Get" + accessor(typ) + suffix
		if b.must {
			nm += "MustGet"
		}
		must := b.must
		return mk(nm, func() error { _, err := typedGet(t, typ, col, r, must); return err })
	case 4, 5:
		if why == 3 && c.N(4) == 3 {
			v = nil
			if m.Types[k] == "*Table" && c.N(2) == 0 {
				v = (*gt.Table)(nil)
			}
			ds = strings.Replace(ds, "a "+typ, fmt.Sprintf("%#v", v), 1)
		}
		if isIdx {
			return mk("SetValByColIndex", func() error { return t.SetValByColIndex(i, r, v) })
		}
		return mk("SetVal", func() error { return t.SetVal(n, r, v) })
	case 6:
		if why == 3 {
			// a nil table where a table is expected
			for kk, ty := range m.Types {
				if ty == "*Table" {
					ds = fmt.Sprintf("(%s, %d, nil)", m.Cols[kk], r)
					if c.N(2) == 0 {
						return mk("SetTable", func() error { return t.SetTable(m.Cols[kk], r, nil) })
					}
					return mk("SetTableByColIndex", func() error { return t.SetTableByColIndex(kk, r, nil) })
				}
			}
			return nil
		}
		b.must = c.N(5) == 4
		if isIdx {
			if b.must {
				return mk("GetValByColIndexMustGet", func() error { t.GetValByColIndexMustGet(i, r); return nil })
			}
			return mk("GetValByColIndex", func() error { _, err := t.GetValByColIndex(i, r); return err })
		}
		if b.must {
			return mk("GetValMustGet", func() error { t.GetValMustGet(n, r); return nil })
		}
		return mk("GetVal", func() error { _, err := t.GetVal(n, r); return err })
	case 7: // zero fills
		if why == 3 {
			return nil
		}
		switch c.N(3) {
		case 0:
			if isIdx {
				return mk("SetCellToZeroValueByColIndex", func() error { return t.SetCellToZeroValueByColIndex(i, r) })
			}
			return mk("SetCellToZeroValue", func() error { return t.SetCellToZeroValue(n, r) })
		case 1:
			if why != 0 {
				return mk("SetRowCellsToZeroValue", func() error { return t.SetRowCellsToZeroValue(r) })
			}
			fallthrough
		default:
			if why != 0 {
				return nil
			}
			if isIdx {
				return mk("SetColCellsToZeroValueByColIndex", func() error { return t.SetColCellsToZeroValueByColIndex(i) })
			}
			return mk("SetColCellsToZeroValue", func() error { return t.SetColCellsToZeroValue(n) })
		}
	default: // NaN fills
		if why == 3 && isFloat(m.Types[k]) {
			return nil
		}
		switch c.N(3) {
		case 0:
			if isIdx {
				return mk("SetFloatCellToNaNByColIndex", func() error { return t.SetFloatCellToNaNByColIndex(i, r) })
			}
			return mk("SetFloatCellToNaN", func() error { return t.SetFloatCellToNaN(n, r) })
		case 1:
			if why == 1 || why == 2 {
				return mk("SetRowFloatCellsToNaN", func() error { return t.SetRowFloatCellsToNaN(r) })
			}
			fallthrough
		default:
			if why == 1 || why == 2 {
				return nil
			}
			if isIdx {
				return mk("SetColFloatCellsToNaNByColIndex", func() error { return t.SetColFloatCellsToNaNByColIndex(i) })
			}
			return mk("SetColFloatCellsToNaN", func() error { return t.SetColFloatCellsToNaN(n) })
		}
	}
}

// invalidJoin makes a call that takes a second table and must refuse it.
func (w *atomWorld) invalidJoin(d *Doc, b *badCall) *badCall {
	c, t, m := w.c, d.t, d.m
	mk := func(name, desc string, call func() error) *badCall {
		b.name, b.desc, b.call = name, name+desc, call
		return b
	}
	nc := len(m.Cols)
	if c.N(6) == 0 { // nil
		switch c.N(6) {
		case 0:
			return mk("AppendColsFromTable", "(nil)", func() error { return t.AppendColsFromTable(nil) })
		case 1:
			return mk("AppendRowsFromTable", "(nil)", func() error { return t.AppendRowsFromTable(nil, 0, 0) })
		case 2:
			return mk("Merge", "(nil)", func() error { _, err := t.Merge(nil); return err })
		case 3:
			return mk("Nest", "(nil)", func() error { return t.Nest(nil, "kids") })
		case 4:
			return mk("SetSortKeysFromTable", "(nil)", func() error { return t.SetSortKeysFromTable(nil) })
		default:
			return mk("Equals", "(nil)", func() error {
				eq, err := t.Equals(nil)
				if !eq && err == nil {
					return fmt.Errorf("no")
				}
				return err
			})
		}
	}
	// A second table: some of the columns of d, some new ones, one that clashes.
	o := &Abs{Name: newName(c, nil)}
	for k := range m.Cols {
		if c.N(3) > 0 {
			o.Cols, o.Types = append(o.Cols, m.Cols[k]), append(o.Types, m.Types[k])
		}
	}
	for i := 0; i < c.N(3); i++ {
		n := newName(c, append(append([]string{}, m.Cols...), o.Cols...))
		o.Cols, o.Types = append(o.Cols, n), append(o.Types, pick(c, flatTypes))
	}
	reorderModel(o, permutation(c, len(o.Cols)))
	clash := -1
	for k, n := range o.Cols {
		if m.col(n) >= 0 && c.N(2) == 0 {
			clash = k
		}
	}
	if clash >= 0 {
		was := o.Types[clash]
		for goType(o.Types[clash]) == goType(was) {
			o.Types[clash] = pick(c, flatTypes)
		}
	}
	fill := func() {
		for r := 0; r < 1+c.N(3); r++ {
			row := make([]interface{}, len(o.Cols))
			for k := range row {
				row[k] = genVal(c, o.Types[k], w.o)
			}
			o.Rows = append(o.Rows, row)
		}
	}
	if len(o.Cols) > 0 {
		fill()
	}
	if c.N(2) == 0 {
		for k, typ := range o.Types {
			if sortable(typ) && c.N(2) == 0 {
				o.Keys = append(o.Keys, Key{o.Cols[k], typ, c.N(3) == 0})
			}
		}
	}
	ot := mustBuild(c, o)
	b.extra = append(b.extra, ot)
	ds := fmt.Sprintf(" with %s on %s", o.canon(), m.canon())
	switch c.N(7) {
	case 0: // columns
		if clash < 0 {
			return nil
		}
		return mk("AppendColsFromTable", ds, func() error { return t.AppendColsFromTable(ot) })
	case 1, 2: // rows
		if len(o.Rows) == 0 {
			return nil
		}
		bad := clash >= 0
		for _, n := range o.Cols {
			bad = bad || m.col(n) < 0
		}
		f, l := 0, len(o.Rows)-1
		if !bad || c.N(3) == 0 {
			if c.N(2) == 0 {
				l = len(o.Rows) + c.N(3)
			} else {
				f = -1 - c.N(2)
			}
		}
		return mk("AppendRowsFromTable", fmt.Sprintf("(%d,%d)", f, l)+ds, func() error { return t.AppendRowsFromTable(ot, f, l) })
	case 3: // sort keys
		bad := len(o.Keys) == 0
		for _, k := range o.Keys {
			if m.col(k.Col) < 0 || !sortable(m.Types[m.col(k.Col)]) {
				bad = true
			}
		}
		if !bad {
			return nil
		}
		return mk("SetSortKeysFromTable", ds, func() error { return t.SetSortKeysFromTable(ot) })
	case 4, 5: // nest
		name := newName(c, m.Cols)
		bad := len(m.Keys) == 0 && len(o.Keys) == 0
		keys := m.Keys
		other := o
		if len(keys) == 0 {
			keys, other = o.Keys, m
		}
		for _, k := range keys {
			if j := other.col(k.Col); j < 0 || other.Types[j] != k.Typ {
				bad = true
			}
		}
		if !bad || c.N(3) == 0 {
			name = badName(c)
			if nc > 0 && c.N(2) == 0 {
				name = pick(c, m.Cols)
			}
		}
		return mk("Nest", fmt.Sprintf("(%q)", name)+ds, func() error { return t.Nest(ot, name) })
	default: // merge without usable keys
		if len(m.Keys) > 0 || len(o.Keys) > 0 {
			return nil
		}
		return mk("Merge", " without keys"+ds, func() error { _, err := t.Merge(ot); return err })
	}
}

func (w *atomWorld) invalidSet(b *badCall) *badCall {
	c := w.c
	if len(w.sets) == 0 {
		return nil
	}
	s := pick(c, w.sets)
	mk := func(name, desc string, call func() error) *badCall {
		b.name, b.desc, b.call = "TableSet."+name, "TableSet."+name+desc, call
		return b
	}
	names := s.names()
	n := len(names)
	absent := newName(c, names)
	if n > 0 && c.N(2) == 0 {
		if x := nearName(c, pick(c, names)); s.find(x) < 0 {
			absent = x
		}
	}
	ds := fmt.Sprintf(" of %v", names)
	switch c.N(11) {
	case 0:
		if n == 0 {
			return nil
		}
		a := genAbs(c, pick(c, names), w.o, 2, 2, flatTypes)
		t := mustBuild(c, a)
		if c.N(3) == 0 { // the very table that is there
			t = s.e[s.find(a.Name)].t
		} else {
			b.extra = append(b.extra, t)
		}
		if c.N(2) == 0 {
			return mk("Append", "(duplicate "+a.Name+")"+ds, func() error { return s.s.Append(t) })
		}
		return mk("AppendTable", "(duplicate "+a.Name+")"+ds, func() error { return s.s.AppendTable(t) })
	case 1:
		return mk("AppendTable", "(nil)"+ds, func() error { return s.s.AppendTable(nil) })
	case 2:
		to := newName(c, names)
		return mk("RenameTable", fmt.Sprintf("(%q, %q)", absent, to)+ds, func() error { return s.s.RenameTable(absent, to) })
	case 3:
		if n < 2 {
			return nil
		}
		i := c.N(n)
		j := (i + 1 + c.N(n-1)) % n
		return mk("RenameTable", fmt.Sprintf("(%q, %q)", names[i], names[j])+ds, func() error { return s.s.RenameTable(names[i], names[j]) })
	case 4:
		if n == 0 {
			return nil
		}
		from, to := pick(c, names), badName(c)
		return mk("RenameTable", fmt.Sprintf("(%q, %q)", from, to)+ds, func() error { return s.s.RenameTable(from, to) })
	case 5:
		return mk("DeleteTable", fmt.Sprintf("(%q)", absent)+ds, func() error { return s.s.DeleteTable(absent) })
	case 6:
		i := badIndex(c, n)
		return mk("DeleteTableByTableIndex", fmt.Sprintf("(%d)", i)+ds, func() error { return s.s.DeleteTableByTableIndex(i) })
	case 7:
		i := badIndex(c, n)
		return mk("GetTableByTableIndex", fmt.Sprintf("(%d)", i)+ds, func() error { _, err := s.s.GetTableByTableIndex(i); return err })
	case 8:
		return mk("GetTable", fmt.Sprintf("(%q)", absent)+ds, func() error { _, err := s.s.GetTable(absent); return err })
	case 9:
		return mk("HasTable", fmt.Sprintf("(%q)", absent)+ds, func() error {
			has, err := s.s.HasTable(absent)
			if !has && err == nil {
				return fmt.Errorf("no")
			}
			return err
		})
	default:
		return mk("TableIndex", fmt.Sprintf("(%q)", absent)+ds, func() error { _, err := s.s.TableIndex(absent); return err })
	}
}

var nilMethods = map[reflect.Type][]reflect.Method{}

// nilReceiver calls a random error-returning method on a nil table or set.
func (w *atomWorld) nilReceiver(b *badCall) *badCall {
	c := w.c
	var recv interface{} = (*gt.Table)(nil)
	if c.N(4) == 3 {
		recv = (*gt.TableSet)(nil)
	}
	rt := reflect.TypeOf(recv)
	ms, ok := nilMethods[rt]
	if !ok {
		for i := 0; i < rt.NumMethod(); i++ {
			mt := rt.Method(i)
			no := mt.Type.NumOut()
			if no == 0 || mt.Type.Out(no-1).String() != "error" {
				continue
			}
			if strings.HasSuffix(mt.Name, "MustGet") || strings.HasSuffix(mt.Name, "MustSet") {
				continue
			}
			ms = append(ms, mt)
		}
		nilMethods[rt] = ms
	}
	if recv, ok := recv.(*gt.Table); ok && c.N(40) == 0 { // a count has no error to give: it gives -1
		name, count := "RowCount", recv.RowCount
		if c.N(2) == 0 {
			name, count = "SortKeyCount", recv.SortKeyCount
		}
		b.name = "Table." + name + " on nil"
		b.desc = b.name
		b.call = func() error {
			if n := count(); n >= 0 {
				return nil
			}
			return fmt.Errorf("-1")
		}
		return b
	}
	mt := pick(c, ms)
	var args []reflect.Value
	args = append(args, reflect.ValueOf(recv))
	for i := 1; i < mt.Type.NumIn(); i++ {
		at := mt.Type.In(i)
		if mt.Type.IsVariadic() && i == mt.Type.NumIn()-1 {
			break
		}
		switch {
		case at == reflect.TypeOf((*gt.Table)(nil)):
			x, _ := gt.NewTable("x")
			args = append(args, reflect.ValueOf(x))
		case at.Kind() == reflect.String:
			args = append(args, reflect.ValueOf("a").Convert(at))
			if mt.Name == "WriteFile" {
				args[len(args)-1] = reflect.ValueOf("/nonexistent-dir/x")
			}
		default:
			args = append(args, reflect.Zero(at))
		}
	}
	b.name = rt.Elem().Name() + "." + mt.Name + " on nil"
	b.desc = b.name
	b.call = func() error {
		out := mt.Func.Call(args)
		return errOf(out[len(out)-1])
	}
	return b
}

func runP02(c *Ctx) {
	w := &atomWorld{W: *newW(c, "P02")}
	ops, weights := opMix(c, "2")
	for i := 0; i < 1+c.N(2); i++ {
		var cl []*Doc
		for j := 0; j < 1+c.N(2); j++ {
			cl = append(cl, w.newDoc())
		}
		w.clients = append(w.clients, cl)
	}
	for i := 0; i < c.N(3); i++ {
		d := &setDoc{name: pick(c, []string{"", "set", "S_2"})}
		var err error
		if d.s, err = gt.NewTableSet(d.name); err != nil {
			c.Abandon("NewTableSet")
		}
		for j := 0; j < c.N(4); j++ {
			a := genAbs(c, newName(c, d.names()), w.o, 2, 2, flatTypes)
			t := mustBuild(c, a)
			if d.s.AppendTable(t) != nil {
				c.Abandon("AppendTable")
			}
			d.e = append(d.e, &setEntry{t, a})
		}
		w.sets = append(w.sets, d)
	}
	c.Plan(10, 60)
	injected := 0
	for c.Step() {
		if c.N(3) == 0 {
			w.step(ops, weights)
			continue
		}
		cl := c.N(len(w.clients))
		d := w.clients[cl][c.N(len(w.clients[cl]))]
		bc := w.invalid(d)
		if bc == nil {
			continue
		}
		before := w.picture(bc.extra...)
		var err error
		p, st := Try(func() { err = bc.call() })
		injected++
		c.Fault("invalid call: " + bc.name)
		c.Ops++
		c.Ev("client %d [%s]: %s -> %s", cl, d.m.Name, bc.desc, errText(err))
		short := bc.name
		if bc.must {
			if p == nil && err == nil {
				c.Fail("Must form accepted an invalid call: "+short, "%s on %s neither panicked nor returned an error", bc.desc, d.m.canon())
			}
		} else {
			if p != nil {
				c.Fail("panic instead of an error: "+short, "%s on %s panicked: %v\n%s", bc.desc, d.m.canon(), p, trimStack(st))
			}
			if err == nil {
				c.Fail("invalid call accepted: "+short, "%s on %s: no error", bc.desc, d.m.canon())
			}
		}
		after := w.picture(bc.extra...)
		if before != after {
			c.Fail("changed by a refused call: "+short, "%s on %s was refused (%v) but: %s", bc.desc, d.m.canon(), err, firstDiff(before, after))
		}
		c.State(hashStr(d.m.shape(), bc.name))
	}
	c.Nontriv = injected >= 3
}

func init() {
	register(&PropDef{ID: "P02", Mode: "plain", Run: runP02, Quick: 80000, Thorough: 3000000, Batch: 300,
		Rule: "each run: 1-2 clients with 1-2 tables each and up to two table sets, 10-60 seeded steps, two thirds of them invalid calls among valid edits; every table, set and nested table's parent compared before and after; non-trivial: at least 3 invalid calls were made; distinct by hash of event log and states",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "client interleaving, map iteration order and random numbers decided by the simulator"})
}
