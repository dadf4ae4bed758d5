package main

import (
	"fmt"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P14: snapshots

// snapWorld: clients edit tables and hand each other snapshots of them; whatever is done
// to one side must stay there.
type snapWorld struct {
	*W
	mode string // "flat", "shallow" (nested tables are shared, not edited), "deep"
	how  map[*Doc]string
}

func (w *snapWorld) add(d *Doc, how string, ci int) {
	w.clients[ci] = append(w.clients[ci], d)
	w.how[d] = how
}

// adopt checks a fresh snapshot against what it should hold.
func (w *snapWorld) adopt(kind string, t *gt.Table, want *Abs, ci int) {
	c := w.c
	got, err := look(t)
	if err != nil {
		c.Fail("snapshot unreadable: "+kind, "%s of %s: %v", kind, want.canon(), err)
	}
	if diff := diffContents(want, got); diff != "" {
		c.Fail("snapshot differs from its source: "+kind, "%s of %s: %s", kind, want.canon(), diff)
	}
	w.add(&Doc{t, got}, kind, ci)
}

// rest compares every table with what its holder last knew.
func (w *snapWorld) rest(except *Doc) {
	for ci, cl := range w.clients {
		for _, d := range cl {
			if d == except {
				continue
			}
			got, err := look(d.t)
			if err != nil {
				w.c.Fail("other side unreadable after "+w.last, "after %s, client %d's %s [%s] cannot be read: %v", w.last, ci, w.how[d], d.m.Name, err)
			}
			if diff := diffAbs(d.m, got); diff != "" {
				w.c.Fail("edit leaks: "+w.last+" seen in "+w.how[d], "after %s on another table, client %d's %s [%s] changed: %s", w.last, ci, w.how[d], d.m.Name, diff)
			}
		}
	}
}

// shares tells whether one table sits in more than one cell of t, at any depth. Merges of shallow copies do that.
func shares(t *gt.Table, seen map[*gt.Table]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	for k := 0; k < t.ColCount(); k++ {
		for r := 0; r < t.RowCount(); r++ {
			v, err := t.GetValByColIndex(k, r)
			if err != nil {
				return false
			}
			if x, ok := v.(*gt.Table); ok && x != nil && shares(x, seen) {
				return true
			}
		}
	}
	return false
}

func (w *snapWorld) snapshot() {
	c := w.c
	ci := c.N(len(w.clients))
	d := w.clients[ci][c.N(len(w.clients[ci]))]
	to := c.N(len(w.clients))
	var kinds []string
	if w.mode == "deep" {
		kinds = []string{"CopyDeep"}
	} else {
		kinds = []string{"Copy", "NewTableFromRows", "NewTableReorderCols", "NewTableReorderColsByColIndex", "NewTableFromRowsBySearchRange", "CopyCols", "TableSet.Copy", "CopyDeep", "Merge", "SortUnique"}
	}
	kind := pick(c, kinds)
	want := d.m.clone()
	var t *gt.Table
	var err error
	call := func(f func()) bool {
		p, st := Try(f)
		if p != nil {
			c.Fail("panic in "+kind+" "+panicSite(st), "%s of %s panicked: %v\n%s", kind, d.m.canon(), p, trimStack(st))
		}
		c.Ev("client %d takes %s of [%s] -> %s", to, kind, d.m.Name, errText(err))
		return err == nil
	}
	w.last = kind
	switch kind {
	case "Copy", "CopyDeep", "CopyCols":
		if !call(func() {
			switch kind {
			case "Copy":
				t, err = d.t.Copy()
			case "CopyDeep":
				t, err = d.t.CopyDeep()
			default:
				t, err = d.t.CopyCols()
			}
		}) {
			if kind == "CopyDeep" && gt.HasCircRefError(err) && shares(d.t, map[*gt.Table]bool{}) {
				c.Probe("deep copy of a table with one nested table in two cells refused")
				return // as it has to be: P17
			}
			c.Fail("refused: "+kind, "%s of %s: %v", kind, d.m.canon(), err)
		}
		if t == d.t {
			c.Fail("not a copy: "+kind, "%s of [%s] returned the table itself", kind, d.m.Name)
		}
		if kind == "CopyCols" {
			want.Rows = nil
		}
	case "NewTableFromRows":
		if len(d.m.Rows) == 0 {
			return
		}
		lo := c.N(len(d.m.Rows))
		hi := lo + c.N(len(d.m.Rows)-lo)
		n := newName(c, nil)
		if !call(func() { t, err = d.t.NewTableFromRows(n, lo, hi) }) {
			c.Fail("refused: "+kind, "rows %d..%d of %s: %v", lo, hi, d.m.canon(), err)
		}
		want.Name, want.Rows = n, want.Rows[lo:hi+1]
	case "NewTableReorderCols", "NewTableReorderColsByColIndex":
		p := permutation(c, len(d.m.Cols))
		var names []string
		for _, k := range p {
			names = append(names, d.m.Cols[k])
		}
		if !call(func() {
			if kind == "NewTableReorderCols" {
				t, err = d.t.NewTableReorderCols(names...)
			} else {
				t, err = d.t.NewTableReorderColsByColIndex(p...)
			}
		}) {
			c.Fail("refused: "+kind, "%v of %s: %v", p, d.m.canon(), err)
		}
		reorderModel(want, p)
	case "NewTableFromRowsBySearchRange":
		// sort by one sortable column, then cut out the rows with one of its values
		var cand []int
		for k, typ := range d.m.Types {
			if sortable(typ) && !isFloat(typ) {
				cand = append(cand, k)
			}
		}
		if len(cand) == 0 || len(d.m.Rows) == 0 {
			return
		}
		k := pick(c, cand)
		var serr error
		if p, _ := Try(func() {
			if serr = d.t.SetSortKeys(d.m.Cols[k]); serr == nil {
				serr = d.t.Sort()
			}
		}); p != nil || serr != nil {
			c.Abandon("cannot sort")
		}
		d.m = mustLook(c, d.t)
		r := c.N(len(d.m.Rows))
		val := d.m.Rows[r][k]
		lo, hi := -1, -1
		for i := range d.m.Rows {
			if canon(d.m.Rows[i][k]) == canon(val) {
				if lo < 0 {
					lo = i
				}
				hi = i
			}
		}
		n := newName(c, nil)
		if !call(func() { t, err = d.t.NewTableFromRowsBySearchRange(n, val) }) {
			c.Fail("refused: "+kind, "value %s in %s: %v", shortVal(val), d.m.canon(), err)
		}
		want = d.m.clone()
		want.Name, want.Rows = n, want.Rows[lo:hi+1]
	case "Merge", "SortUnique":
		// What the new table holds is another property's business (P16); here it must not be tied to its sources.
		var cand []string
		for k, typ := range d.m.Types {
			if sortable(typ) && !isFloat(typ) {
				cand = append(cand, d.m.Cols[k])
			}
		}
		if len(cand) == 0 {
			return
		}
		other := d
		var serr error
		if p, _ := Try(func() { serr = d.t.SetSortKeys(pick(c, cand)) }); p != nil || serr != nil {
			c.Abandon("cannot set sort keys")
		}
		d.m = mustLook(c, d.t)
		if kind == "Merge" {
			other = w.anyDoc()
		}
		p, _ := Try(func() {
			if kind == "Merge" {
				t, err = d.t.Merge(other.t)
			} else {
				t, err = d.t.SortUnique()
			}
		})
		c.Ev("client %d takes %s of [%s] (with [%s]) -> %s", to, kind, d.m.Name, other.m.Name, errText(err))
		if p != nil || err != nil {
			return // not compatible
		}
		if t == d.t || t == other.t {
			c.Fail("not a copy: "+kind, "%s of [%s] returned the table itself", kind, d.m.Name)
		}
		want = mustLook(c, t)
	case "TableSet.Copy":
		// a set of some of this client's tables; only tables with distinct names can be in it
		s, e := gt.NewTableSet("s")
		if e != nil {
			c.Abandon("NewTableSet")
		}
		var ins []*Doc
		used := map[string]bool{}
		for _, x := range w.clients[ci] {
			if !used[x.m.Name] && len(ins) < 3 {
				used[x.m.Name] = true
				if s.AppendTable(x.t) != nil {
					c.Abandon("AppendTable")
				}
				ins = append(ins, x)
			}
		}
		var s2 *gt.TableSet
		if !call(func() { s2, err = s.Copy() }) {
			c.Fail("refused: "+kind, "%v", err)
		}
		if s2.TableCount() != len(ins) {
			c.Fail("snapshot differs from its source: "+kind, "%d tables of %d", s2.TableCount(), len(ins))
		}
		for i, x := range ins {
			t2, e := s2.GetTableByTableIndex(i)
			if e != nil {
				c.Fail("snapshot differs from its source: "+kind, "table %d: %v", i, e)
			}
			if t2 == x.t {
				c.Fail("not a copy: "+kind, "table %d [%s] of the copy is the original", i, x.m.Name)
			}
			w.adopt(kind, t2, x.m, to)
		}
		w.rest(nil)
		return
	}
	c.Probe("snapshot " + kind)
	w.adopt(kind, t, want, to)
	w.rest(nil)
}

// scribble changes bytes of a byte-slice cell in place, through the slice a getter returned.
func (w *snapWorld) scribble() {
	c := w.c
	d := w.anyDoc()
	for k, typ := range d.m.Types {
		if typ != "[]byte" && typ != "[]uint8" {
			continue
		}
		for r := range d.m.Rows {
			if n := len(d.m.Rows[r][k].([]byte)); n > 0 {
				var v interface{}
				p, _ := Try(func() { v, _ = d.t.GetValByColIndex(k, r) })
				b, ok := v.([]byte)
				if p != nil || !ok || len(b) != n {
					c.Abandon("cannot read a byte slice")
				}
				b[c.N(n)] ^= byte(1 + c.N(255))
				w.last = "in-place change of a byte slice"
				c.Ev("change bytes of [%s] %s[%d] in place", d.m.Name, d.m.Cols[k], r)
				c.Probe("byte slice changed in place")
				c.Ops++
				d.m = mustLook(c, d.t)
				w.rest(d)
				return
			}
		}
	}
}

// editNested edits a table nested in a document, at any depth.
func (w *snapWorld) editNested() {
	c := w.c
	d := w.anyDoc()
	t, m := d.t, d.m
	depth := 0
	for {
		type at struct{ k, r int }
		var cells []at
		for k, typ := range m.Types {
			if typ == "*Table" {
				for r := range m.Rows {
					if !m.Rows[r][k].(*Abs).Nil {
						cells = append(cells, at{k, r})
					}
				}
			}
		}
		if len(cells) == 0 || (depth > 0 && c.N(2) == 0) {
			break
		}
		x := pick(c, cells)
		var nt *gt.Table
		var err error
		if p, _ := Try(func() { nt, err = t.GetTableByColIndex(x.k, x.r) }); p != nil || err != nil {
			c.Abandon("cannot get a nested table")
		}
		t, m = nt, m.Rows[x.r][x.k].(*Abs)
		depth++
	}
	if depth == 0 {
		return
	}
	c.Probe(fmt.Sprintf("nested edit at depth %d", depth))
	c.Ops++
	inner := &Doc{t, m.clone()}
	o := pick(c, nestedEdits)
	desc, call, _ := findOp(o).run(w.W, inner)
	if call == nil {
		return
	}
	w.last = "nested " + o
	var err error
	p, _ := Try(func() { err = call() })
	c.Ev("in [%s] at depth %d: %s -> %s", d.m.Name, depth, desc, errText(err))
	if p != nil {
		c.Abandon("operation panicked")
	}
	d.m = mustLook(c, d.t)
	w.rest(d)
}

var nestedEdits = []string{"AppendRow", "AppendCol", "SetVal", "SetVal", "SetTyped", "DeleteRow", "DeleteCol", "RenameCol", "SetName", "Reverse", "SetSortKeys", "SetSortKeysReverse"}

func findOp(name string) *op {
	for i := range histOps {
		if histOps[i].name == name {
			return &histOps[i]
		}
	}
	panic("harness: no op " + name)
}

func runP14(c *Ctx) {
	w := &snapWorld{W: newW(c, "P14"), how: map[*Doc]string{}}
	w.mode = pick(c, []string{"flat", "deep", "shallow"})
	now := int64(1600000000e9)
	time.SimClock = func() (int64, int32) { now += 1 + int64(c.U(0)%1e9); return now / 1e9, int32(now % 1e9) }
	c.Defer(func() { time.SimClock = nil })
	w.o.nest = 3
	w.o.deep = c.N(8) == 7
	if w.mode == "flat" {
		var ts []string
		for _, t := range w.types {
			if t != "*Table" {
				ts = append(ts, t)
			}
		}
		w.types = append(ts, "[]byte", "[]uint8")
		w.o.nest = 0
	} else {
		w.types = append(w.types, "*Table", "*Table")
		if len(w.types) > 12 {
			w.types = append([]string{"[]byte", "*Table"}, w.types[:8]...)
		}
	}
	var ops []op
	var weights []int
	for _, o := range histOps {
		switch o.name {
		case "NewTableReorderCols", "NewTableFromRows", "AppendRowsFromTable":
			continue
		}
		wt := o.w * 2
		switch c.N(4) {
		case 2:
			wt = 1
		case 3:
			wt *= 3
		}
		ops, weights = append(ops, o), append(weights, wt)
	}
	for i := 0; i < 2; i++ {
		w.clients = append(w.clients, nil)
		for j := 0; j < 1+c.N(2); j++ {
			d := w.newDoc()
			w.add(d, "table", i)
		}
	}
	count := func() (n int) {
		for _, cl := range w.clients {
			n += len(cl)
		}
		return
	}
	c.Plan(8, 30)
	for c.Step() {
		k := c.N(12)
		switch {
		case k < 3 && count() < 9:
			w.snapshot()
			c.Ops++
		case k < 5 && w.mode == "deep":
			w.editNested()
		case k < 6:
			w.scribble()
		case k < 7:
			d := w.anyDoc()
			w.last = pick(c, []string{"Sort", "ShuffleRandom", "ShufflePseudorandom", "OrderColsBySortKeys"})
			var err error
			p, _ := Try(func() {
				switch w.last {
				case "Sort":
					err = d.t.Sort()
				case "ShuffleRandom":
					err = d.t.ShuffleRandom()
				case "ShufflePseudorandom":
					err = d.t.ShufflePseudorandom()
				default:
					err = d.t.OrderColsBySortKeys()
				}
			})
			c.Ev("%s [%s] -> %s", w.last, d.m.Name, errText(err))
			if p != nil {
				c.Abandon("operation panicked")
			}
			d.m = mustLook(c, d.t)
			w.rest(d)
		default:
			d := w.step(ops, weights)
			w.rest(d)
		}
	}
	w.rest(nil)
	c.Nontriv = count() > 3 && c.Ops >= 5
}

func init() {
	register(&PropDef{ID: "P14", Mode: "plain", Run: runP14, Quick: 100000, Thorough: 1200000, Batch: 200,
		Rule: "each run: two clients with 1-2 tables each take snapshots (Copy, CopyCols, CopyDeep, TableSet.Copy, NewTableFromRows, ...BySearchRange, NewTableReorderCols*, Merge, SortUnique) of each other's tables at seeded points of 8-30 interleaved edits, nested edits, sorts, shuffles and in-place byte changes; after every step every other table held by anyone is compared in full; non-trivial: a snapshot and at least 5 edits happened",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "client interleaving, clock (as seen by ShuffleRandom), map iteration order and random numbers decided by the simulator"})
}
