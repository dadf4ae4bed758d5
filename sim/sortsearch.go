package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P15: sorting, searching, sort keys

func multiset(rows [][]interface{}) string {
	var s []string
	for _, r := range rows {
		s = append(s, rowCanon(r))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func rowCanon(r []interface{}) string {
	var b strings.Builder
	for _, v := range r {
		b.WriteString(canon(v))
		b.WriteByte(';')
	}
	return b.String()
}

func (a *Abs) sorted() bool {
	if len(a.Keys) == 0 {
		return false
	}
	for _, k := range a.Keys {
		if a.col(k.Col) < 0 {
			return false
		}
	}
	for r := 1; r < len(a.Rows); r++ {
		if a.cmpRows(a.Rows[r-1], a.Rows[r], a.Keys, false) > 0 {
			return false
		}
	}
	return true
}

// mostKeys is the number of sort keys a client goes up to.
func (w *W) mostKeys(n int) int {
	if w.manyKeys {
		return 12
	}
	return n
}

// keyOps are the operations on sort keys, beside those in histOps.
func keyOp(w *W, d *Doc) (desc string, call func() error, apply func()) {
	c := w.c
	var cols []int
	for i, t := range d.m.Types {
		if sortable(t) {
			cols = append(cols, i)
		}
	}
	pickKeys := func() (names []string, keys []Key) {
		for _, x := range permutation(c, len(cols)) {
			if len(names) < w.mostKeys(3) && c.N(2) == 1 || len(names) == 0 && x == 0 {
				i := cols[x]
				names = append(names, d.m.Cols[i])
				keys = append(keys, Key{d.m.Cols[i], d.m.Types[i], false})
			}
		}
		if len(keys) > 0 && c.N(10) == 9 { // the same key again
			x := c.N(len(keys))
			names, keys = append(names, names[x]), append(keys, keys[x])
			c.Probe("a column is a key twice")
		}
		return
	}
	switch c.Weighted([]int{4, 4, 2, 2, 1, 1}) {
	case 0:
		names, keys := pickKeys()
		return fmt.Sprintf("SetSortKeys(%v)", names), func() error { return d.t.SetSortKeys(names...) }, func() { d.m.Keys = keys }
	case 1:
		if len(d.m.Keys) == 0 {
			return
		}
		var names []string
		for _, k := range d.m.Keys {
			if c.N(2) == 1 {
				names = append(names, k.Col)
			}
		}
		return fmt.Sprintf("SetSortKeysReverse(%v)", names), func() error { return d.t.SetSortKeysReverse(names...) }, func() {
			for i := range d.m.Keys {
				for _, n := range names {
					if d.m.Keys[i].Col == n {
						d.m.Keys[i].Rev = true
					}
				}
			}
		}
	case 2:
		for _, x := range permutation(c, len(cols)) {
			i := cols[x]
			if !isKeyCol(d.m.Keys, d.m.Cols[i]) && len(d.m.Keys) < w.mostKeys(4) {
				n := d.m.Cols[i]
				return "AppendSortKey(" + n + ")", func() error { return d.t.AppendSortKey(n) }, func() { d.m.Keys = append(d.m.Keys, Key{n, d.m.Types[i], false}) }
			}
		}
		return
	case 3:
		if len(d.m.Keys) == 0 {
			return
		}
		n := pick(c, d.m.Keys).Col
		times := 0
		for _, k := range d.m.Keys {
			if k.Col == n {
				times++
			}
		}
		if times > 1 {
			return // which of them goes is not specified
		}
		return "DeleteSortKey(" + n + ")", func() error { return d.t.DeleteSortKey(n) }, func() { dropKey(d.m, n) }
	case 4:
		src := w.anyDoc()
		if len(src.m.Keys) == 0 {
			return
		}
		for _, k := range src.m.Keys {
			i := d.m.col(k.Col)
			if i < 0 || d.m.Types[i] != k.Typ {
				return
			}
		}
		keys := append([]Key{}, src.m.Keys...)
		return "SetSortKeysFromTable", func() error { return d.t.SetSortKeysFromTable(src.t) }, func() { d.m.Keys = keys }
	default:
		return "SetSortKeys()", func() error { return d.t.SetSortKeys() }, func() { d.m.Keys = nil }
	}
}

func runP15(c *Ctx) {
	w := newW(c, "P15")
	w.o = genOpt{noNaN: true, nest: 1}
	switch c.N(4) {
	case 1, 2:
		w.o.small = true
	case 3:
		w.o.pool = map[string][]interface{}{}
	}
	w.maxRows = pick(c, []int{6, 10, 20, 40, 6, 10, 20, 40, 6, 10, 20, 40, 6, 10, 20, 40, 6, 10, 20, 130, 600})
	w.o.slim = w.maxRows > 80
	w.maxCols = 2 + c.N(4)
	w.types = nil
	for i := 0; i < 2+c.N(4); i++ {
		w.types = append(w.types, pick(c, sortableTypes))
	}
	if c.N(10) == 9 {
		// Many sort keys, and values so few that the last of them decide.
		w.manyKeys = true
		w.maxCols = 9 + c.N(6)
		w.maxRows = min(w.maxRows, 40)
		w.o = genOpt{noNaN: true, nest: 1, small: true}
		w.types = []string{"bool", "bool", "bool", pick(c, sortableTypes)}
		c.Probe("many sort keys")
	}
	if c.N(2) == 1 {
		w.types = append(w.types, pick(c, allTypes))
	}
	ops, weights := opMix(c, "4")
	var extra []int
	for i, o := range histOps {
		switch o.name {
		case "ReorderCols", "SwapCols", "Reverse", "OrderColsBySortKeys":
			extra = append(extra, i)
		}
	}
	for i := 0; i < 1+c.N(2); i++ {
		var cl []*Doc
		for j := 0; j < 1+c.N(2); j++ {
			d := w.newDoc()
			// more rows than other worlds, so that equal keys come in runs
			if len(d.m.Cols) > 0 {
				for k := c.N(w.maxRows); k > 0; k-- {
					if err := d.t.AppendRow(); err != nil {
						c.Abandon("AppendRow")
					}
					row := zeroRow(d.m)
					for i, typ := range d.m.Types {
						v := genVal(c, typ, w.o)
						rv, _ := realVal(v)
						if err := d.t.SetValByColIndex(i, len(d.m.Rows), rv); err != nil {
							c.Abandon("SetVal")
						}
						row[i] = v
					}
					d.m.Rows = append(d.m.Rows, row)
				}
			}
			cl = append(cl, d)
		}
		w.clients = append(w.clients, cl)
	}
	fail := func(sig, format string, args ...interface{}) { c.Fail(sig, "%s", fmt.Sprintf(format, args...)) }
	keysOK := func(d *Doc, after string) *Abs {
		got := mustLook(c, d.t)
		if fmt.Sprint(got.Keys) != fmt.Sprint(d.m.Keys) {
			fail("sort keys after "+after, "after %s the sort keys of\n%s\nare %v, expected %v", after, d.m.canon(), got.Keys, d.m.Keys)
		}
		if d.t.SortKeyCount() != len(d.m.Keys) {
			fail("SortKeyCount after "+after, "%d, expected %d", d.t.SortKeyCount(), len(d.m.Keys))
		}
		for i, cn := range d.m.Cols {
			if is, err := d.t.IsSortKey(cn); err != nil || is != isKeyCol(d.m.Keys, cn) {
				fail("IsSortKey after "+after, "%s %s: %t %v", cn, d.m.Types[i], is, err)
			}
		}
		return got
	}
	c.Plan(10, 50)
	for c.Step() {
		switch c.Weighted([]int{6, 5, 8, 8, 3}) {
		case 0: // edit
			d := w.step(ops, weights)
			keysOK(d, w.last)
		case 4:
			d := w.anyDoc()
			o := histOps[pick(c, extra)]
			w.last = o.name
			_, call, apply := o.run(w, d)
			if call == nil {
				continue
			}
			if err := call(); err != nil {
				c.Abandon("rearrangement refused")
			}
			apply()
			c.Ops++
			c.Ev("%s", o.name)
			got := keysOK(d, o.name)
			d.m = got
		case 1: // sort keys
			d := w.anyDoc()
			desc, call, apply := keyOp(w, d)
			if call == nil {
				continue
			}
			c.Ops++
			var err error
			if p, st := Try(func() { err = call() }); p != nil {
				fail("panic in sort key operation "+panicSite(st), "%s: %v\n%s", desc, p, trimStack(st))
			}
			c.Ev("[%s] %s -> %s", d.m.Name, desc, errText(err))
			if err != nil {
				fail("sort key operation refused", "%s on\n%s\n%v", desc, d.m.canon(), err)
			}
			apply()
			got := keysOK(d, strings.SplitN(desc, "(", 2)[0])
			if diff := diffAbs(d.m, got); diff != "" {
				fail("sort key operation changed the table", "%s: %s", desc, diff)
			}
		case 2: // sort
			d := w.anyDoc()
			var args []string
			how := c.N(3)
			keys := d.m.Keys
			if how > 0 {
				keys = nil
				for _, i := range permutation(c, len(d.m.Cols)) {
					if sortable(d.m.Types[i]) && len(args) < w.mostKeys(3) {
						args = append(args, d.m.Cols[i])
						keys = append(keys, Key{d.m.Cols[i], d.m.Types[i], false})
						if c.N(2) == 0 && (!w.manyKeys || c.N(4) == 0) {
							break
						}
					}
				}
			}
			if len(keys) == 0 {
				continue
			}
			before := multiset(d.m.Rows)
			c.Ops++
			var err error
			p, st := Try(func() {
				switch how {
				case 2:
					err = d.t.SortSimple(args...)
				default:
					err = d.t.Sort(args...)
				}
			})
			if p != nil {
				fail("panic in Sort "+panicSite(st), "sorting\n%s\nby %v: %v\n%s", d.m.canon(), keys, p, trimStack(st))
			}
			c.Ev("[%s] sort %v -> %s", d.m.Name, keys, errText(err))
			if err != nil {
				fail("Sort refused", "sorting\n%s\nby %v: %v", d.m.canon(), keys, err)
			}
			d.m.Keys = keys
			got := keysOK(d, "Sort")
			if fmt.Sprint(got.Cols, got.Types, got.Name) != fmt.Sprint(d.m.Cols, d.m.Types, d.m.Name) {
				fail("Sort changed columns", "%s", diffAbs(d.m, got))
			}
			if multiset(got.Rows) != before {
				fail("Sort: not a permutation of the rows", "sorting\n%s\nby %v gave\n%s", d.m.canon(), keys, got.canon())
			}
			if !got.sorted() {
				fail("Sort: rows out of order", "sorting by %v gave\n%s", keys, got.canon())
			}
			d.m = got
			c.State(mix(got.shape(), 7))
			c.hash = hashStr(c.hash, got.canon())
		case 3: // search
			d := w.anyDoc()
			if !d.m.sorted() {
				continue
			}
			var vals []interface{}
			if len(d.m.Rows) > 0 && c.N(3) > 0 {
				r := c.N(len(d.m.Rows))
				if c.N(4) == 3 { // near an end
					r = min(c.N(3), r)
					if c.N(2) == 0 {
						r = len(d.m.Rows) - 1 - r
					}
				}
				for _, k := range d.m.Keys {
					vals = append(vals, d.m.Rows[r][d.m.col(k.Col)])
				}
				if c.N(3) == 2 { // nearly
					i := c.N(len(vals))
					vals[i] = genVal(c, d.m.Keys[i].Typ, w.o)
				}
			} else {
				for _, k := range d.m.Keys {
					vals = append(vals, genVal(c, k.Typ, w.o))
				}
			}
			first, last := -1, -1
			for r := range d.m.Rows {
				same := true
				for i, k := range d.m.Keys {
					same = same && cmpVal(d.m.Rows[r][d.m.col(k.Col)], vals[i]) == 0
				}
				if same {
					if first < 0 {
						first = r
					}
					last = r
				}
			}
			c.Ops++
			c.Probe(fmt.Sprintf("search found=%t", first >= 0))
			if last > first {
				c.Probe("search found a run of rows")
			}
			c.Ev("[%s] search %v expects %d..%d", d.m.Name, valList(vals), first, last)
			what := fmt.Sprintf("searching\n%s\nfor %v", d.m.canon(), valList(vals))
			one := func(name string, want int, f func() (int, error)) {
				var r int
				var err error
				if p, st := Try(func() { r, err = f() }); p != nil {
					fail("panic in "+name+" "+panicSite(st), "%s: %v\n%s", what, p, trimStack(st))
				}
				if want < 0 {
					if err == nil {
						fail(name+" found what is not there", "%s: row %d", what, r)
					}
					return
				}
				if err != nil || r != want {
					fail(name+" wrong", "%s: row %d (%v), expected %d", what, r, err, want)
				}
			}
			one("Search", first, func() (int, error) { return d.t.Search(vals...) })
			one("SearchFirst", first, func() (int, error) { return d.t.SearchFirst(vals...) })
			one("SearchLast", last, func() (int, error) { return d.t.SearchLast(vals...) })
			one("SearchRange first", first, func() (int, error) { f, _, err := d.t.SearchRange(vals...); return f, err })
			one("SearchRange last", last, func() (int, error) { _, l, err := d.t.SearchRange(vals...); return l, err })
			got := keysOK(d, "Search")
			if diff := diffAbs(d.m, got); diff != "" {
				fail("Search changed the table", "%s", diff)
			}
		}
	}
	c.Nontriv = c.Ops >= 5
}

// ---------------------------------------------------------------- P18: shuffles

func runP18(c *Ctx) {
	now := time.Date(1990+c.N(60), 1, 1, 0, 0, 0, c.N(1000000000), time.UTC).UnixNano()
	time.SimClock = func() (int64, int32) { return floorDiv(now, 1e9), int32(now - floorDiv(now, 1e9)*1e9) }
	c.Defer(func() { time.SimClock = nil })
	w := newW(c, "P18")
	w.o = genOpt{nest: 1}
	type shuf struct {
		d    *Doc
		copy func() *gt.Table
	}
	mk := func(n int) *Doc {
		maxCols := 4
		if n <= 33 && c.N(6) == 5 {
			maxCols = 40 // the order must depend on the number of rows alone
			c.Probe("wide table shuffled")
		}
		a := genAbs(c, newName(c, nil), w.o, maxCols, 0, w.types)
		a.Cols = append([]string{"id_"}, a.Cols...)
		a.Types = append([]string{"int"}, a.Types...)
		a.Rows = nil
		for r := 0; r < n; r++ {
			row := []interface{}{r}
			for _, t := range a.Types[1:] {
				row = append(row, genVal(c, t, w.o))
			}
			a.Rows = append(a.Rows, row)
		}
		return &Doc{mustBuild(c, a), a}
	}
	nt := 1 + c.N(3)
	var docs []*Doc
	for i := 0; i < nt; i++ {
		docs = append(docs, mk(pick(c, []int{0, 1, 2, 3, 8, 20, 33, 0, 1, 2, 3, 8, 20, 33, 70, 300, 1030})))
	}
	perms := map[int]string{} // pseudorandom order by row count
	shuffle := func(d *Doc, random bool) string {
		before := d.m
		var err error
		name := "ShufflePseudorandom"
		f := d.t.ShufflePseudorandom
		if random {
			name, f = "ShuffleRandom", d.t.ShuffleRandom
		}
		if p, st := Try(func() { err = f() }); p != nil {
			c.Fail("panic in "+name+" "+panicSite(st), "%v\n%s", p, trimStack(st))
		}
		if err != nil {
			c.Fail(name+" refused", "%v", err)
		}
		got := mustLook(c, d.t)
		if multiset(got.Rows) != multiset(before.Rows) {
			c.Fail(name+" does not keep the rows", "before\n%s\nafter\n%s", before.canon(), got.canon())
		}
		x, y := before.clone(), got.clone()
		x.Rows, y.Rows = nil, nil
		if x.canon() != y.canon() {
			c.Fail(name+" changed the table", "%s", diffAbs(x, y))
		}
		if valid, err := d.t.IsValidTable(); !valid {
			c.Fail(name+" left an invalid table", "%v", err)
		}
		// where did each row go
		pos := map[string]int{}
		for r, row := range before.Rows {
			pos[rowCanon(row)] = r
		}
		var perm []int
		for _, row := range got.Rows {
			perm = append(perm, pos[rowCanon(row)])
		}
		d.m = got
		c.Ops++
		s := fmt.Sprint(perm)
		c.Ev("%s of %d rows: %s", name, len(perm), s)
		c.hash = hashStr(c.hash, s)
		c.State(hashStr(uint64(len(perm)), s))
		return s
	}
	type seenRandom struct {
		at   int64
		perm string
	}
	randoms := map[int][]seenRandom{}
	jump := func() {
		d := int64(1 + c.N(1000000000))
		switch c.N(8) {
		case 4, 5: // a round number of ticks
			d = int64(1) << c.N(44) * int64(1+c.N(3))
		case 6: // a round time
			d = int64(pick(c, []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 7 * 24 * time.Hour})) * int64(1+c.N(3))
		case 0:
			d = int64(1 + c.N(1000))
		case 1:
			d = -d
			c.Fault("clock jumps back")
		}
		now += d
		c.SimTime += time.Duration(abs64(d))
		c.Fault("clock moves")
	}
	c.Plan(6, 30)
	for c.Step() {
		switch c.Weighted([]int{6, 5, 3, 3, 3}) {
		case 0:
			d := pick(c, docs)
			s := shuffle(d, false)
			n := len(d.m.Rows)
			if old, ok := perms[n]; ok && old != s {
				c.Fail("pseudorandom shuffle not repeatable", "%d rows were shuffled to %s earlier and to %s now", n, old, s)
			}
			perms[n] = s
		case 1:
			d := pick(c, docs)
			n := len(d.m.Rows)
			s := shuffle(d, true)
			if n >= 20 {
				for _, r := range randoms[n] {
					if r.at != now && (now-r.at)%((1<<31)-1) != 0 && r.perm == s {
						c.Fail("random shuffle repeats itself", "%d rows got the same order %s at two different times, %d ns apart", n, s, now-r.at)
					}
				}
				randoms[n] = append(randoms[n], seenRandom{now, s})
			}
			jump()
		case 2: // something else draws random numbers, or seeds the shared source
			switch c.N(3) {
			case 0:
				for i := c.N(10); i >= 0; i-- {
					globalRandDraw()
				}
				c.Fault("others draw random numbers")
			case 1:
				globalRandSeed(int64(c.U(0)))
				c.Fault("others seed the shared source")
			default:
				jump()
			}
		case 3: // another table arrives
			if len(docs) < 6 {
				docs = append(docs, mk(pick(c, []int{1, 2, 5, 8, 20, 33})))
				c.Ev("new table")
			}
		case 4: // edits in between
			d := pick(c, docs)
			if len(d.m.Rows) == 0 {
				continue
			}
			if c.N(2) == 0 {
				if err := d.t.DeleteRow(c.N(len(d.m.Rows))); err != nil {
					c.Abandon("DeleteRow")
				}
			} else {
				if err := d.t.Sort("id_"); err != nil {
					c.Abandon("Sort")
				}
			}
			d.m = mustLook(c, d.t)
			c.Ev("edit")
		}
	}
	// The order must also be the same as in any other process: it depends on the row count alone.
	d := mk(20)
	s := shuffle(d, false)
	if old, ok := perms[20]; ok && old != s {
		c.Fail("pseudorandom shuffle not repeatable", "20 rows were shuffled to %s earlier and to %s now", old, s)
	}
	if procPerm == "" {
		procPerm = s
	} else if procPerm != s {
		c.Fail("pseudorandom shuffle not repeatable", "20 rows were shuffled to %s in an earlier run of the process and to %s now", procPerm, s)
	}
	c.Nontriv = c.Ops >= 3
}

var procPerm string

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func init() {
	register(&PropDef{ID: "P15", Mode: "plain", Run: runP15, Quick: 150000, Thorough: 1500000, Batch: 250,
		Rule: "each run: 1-2 clients interleave 10-50 edits, renames, rearrangements, sort-key changes, sorts and searches on tables with runs of equal keys; keys, row multiset, order and every search result are compared with the reference; non-trivial: at least 5 operations; distinct by hash of event log and states",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "client interleaving, map iteration order and random numbers decided by the simulator"})
	register(&PropDef{ID: "P18", Mode: "plain", Run: runP18, Quick: 100000, Thorough: 1500000, Batch: 250,
		Rule: "each run: tables of 0-33 rows are shuffled, edited and sorted while the simulated clock jumps and other code draws from or seeds the shared random source; rows are compared as multisets, pseudorandom orders across tables, runs and processes, random orders across clock readings; non-trivial: at least 3 shuffles; distinct by hash of event log",
		Real: "gotables (all of it, unmodified), math/rand", Stub: "wall clock (time.Now), runtime random source, other users of math/rand"})
}
