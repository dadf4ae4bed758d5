package main

import (
	"errors"
	"fmt"
	"strings"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P17: nested tables

// gnode is a table of a client with what the simulator knows is nested in it.
type gnode struct {
	id    int
	t     *gt.Table
	name  string
	cols  []string
	types []string
	kids  [][]*gnode // per row, per column (nil: not a table column, or a nil table there)
	nils  int
}

type treeWorld struct {
	c     *Ctx
	nodes []*gnode
	last  string

	chaining bool
}

func (w *treeWorld) describe(n *gnode) string {
	var b strings.Builder
	var rec func(n *gnode, depth int)
	rec = func(n *gnode, depth int) {
		fmt.Fprintf(&b, "[%s #%d rows=%d", n.name, n.id, len(n.kids))
		for r := range n.kids {
			for k, x := range n.kids[r] {
				if x != nil {
					fmt.Fprintf(&b, " %s[%d]=", n.cols[k], r)
					if depth > 6 {
						b.WriteString("...")
					} else {
						rec(x, depth+1)
					}
				}
			}
		}
		b.WriteString("]")
	}
	rec(n, 0)
	s := b.String()
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

// repeated tells whether some table occurs twice in the structure under n.
func (n *gnode) repeated() bool {
	seen := map[*gnode]bool{}
	var rec func(n *gnode) bool
	rec = func(n *gnode) bool {
		if seen[n] {
			return true
		}
		seen[n] = true
		for _, row := range n.kids {
			for _, k := range row {
				if k != nil && rec(k) {
					return true
				}
			}
		}
		return false
	}
	return rec(n)
}

func (n *gnode) height(d int) int {
	if d > 80 {
		return d
	}
	h := d
	for _, row := range n.kids {
		for _, k := range row {
			if k != nil {
				h = max(h, k.height(d+1))
			}
		}
	}
	return h
}

func (w *treeWorld) newNode() {
	c := w.c
	n := &gnode{id: len(w.nodes), name: nameStock[len(w.nodes)%len(nameStock)]}
	if c.Chance(1, 4) {
		n.name = pick(c, nameStock) // names need not differ
	}
	t, err := gt.NewTable(n.name)
	if err != nil {
		c.Abandon("NewTable")
	}
	n.t = t
	cols := 1 + c.N(3)
	if !w.chaining && c.N(12) == 11 { // rows without cells
		cols = 0
	}
	for i := 0; i < cols; i++ {
		typ := "*Table"
		if c.N(3) == 2 {
			typ = pick(c, []string{"int", "string", "bool"})
		}
		cn := newName(c, n.cols)
		if t.AppendCol(cn, typ) != nil {
			c.Abandon("AppendCol")
		}
		n.cols, n.types = append(n.cols, cn), append(n.types, typ)
	}
	w.nodes = append(w.nodes, n)
	w.c.Ev("new table [%s] #%d %v %v", n.name, n.id, n.cols, n.types)
	for i := 0; i < c.N(3); i++ {
		w.addRow(n)
	}
}

// chain nests n new tables one in another.
func (w *treeWorld) chain(n int) {
	var up *gnode
	w.chaining = true
	defer func() { w.chaining = false }()
	for i := 0; i < n; i++ {
		w.newNode()
		x := w.nodes[len(w.nodes)-1]
		k := -1
		for j, t := range x.types {
			if t == "*Table" {
				k = j
			}
		}
		if k < 0 || i == n-1 {
			k = 0
		}
		if len(x.kids) == 0 {
			w.addRow(x)
		}
		if up != nil {
			var ks []int
			for j, t := range up.types {
				if t == "*Table" {
					ks = append(ks, j)
				}
			}
			if len(ks) > 0 {
				r, j := w.c.N(len(up.kids)), pick(w.c, ks)
				if err := up.t.SetTable(up.cols[j], r, x.t); err != nil {
					w.c.Abandon("SetTable: " + err.Error())
				}
				up.kids[r][j] = x
			}
		}
		if k >= 0 && x.types[k] == "*Table" {
			up = x
		}
	}
	w.last = "chain"
	w.c.Probe("tables nested more than ten deep")
}

func (w *treeWorld) addRow(n *gnode) {
	if n.t.AppendRow() != nil {
		w.c.Abandon("AppendRow")
	}
	n.kids = append(n.kids, make([]*gnode, len(n.cols)))
}

type visit struct {
	kind     string // "set", "table", "row", "cell"
	t        *gt.Table
	col, row int
}

// expected lists the visits of a walk of n.
func (n *gnode) expected(nested bool, out *[]visit) {
	*out = append(*out, visit{"table", n.t, -1, -1})
	for r := range n.kids {
		*out = append(*out, visit{"row", n.t, -1, r})
		for k := range n.cols {
			*out = append(*out, visit{"cell", n.t, k, r})
			if nested && n.types[k] == "*Table" {
				if kid := n.kids[r][k]; kid != nil {
					kid.expected(nested, out)
				} else {
					nt, err := n.t.GetTableByColIndex(k, r)
					if err != nil {
						nt = nil
					}
					*out = append(*out, visit{"table", nt, -1, -1})
				}
			}
		}
	}
}

var errVisit = errors.New("the visitor gives up")

func (w *treeWorld) walk(roots []*gnode, asSet bool) {
	c := w.c
	nested := c.N(4) > 0
	var want []visit
	circular := false
	for _, n := range roots {
		if n.repeated() {
			circular = true
		}
	}
	kinds := map[string]bool{"table": c.N(5) > 0, "row": c.N(4) > 0, "cell": c.N(5) > 0, "set": asSet && c.N(5) > 0}
	if !circular || !nested {
		if asSet {
			want = append(want, visit{"set", nil, -1, -1})
		}
		for _, n := range roots {
			n.expected(nested, &want)
		}
		var f []visit
		for _, v := range want {
			if kinds[v.kind] {
				f = append(f, v)
			}
		}
		want = f
	}
	if !asSet && c.Chance(1, 12) {
		c.Fault("nil walkSafe")
		if err := roots[0].t.Walk(true, nil, nil, nil, nil); err == nil {
			c.Fail("nil walkSafe accepted", "walk of %s with a nil WalkSafe: no error", w.describe(roots[0]))
		}
	}
	failAt := -1
	reenter := -1
	if c.Chance(1, 3) {
		failAt = c.N(len(want) + 2)
	}
	if c.Chance(1, 5) {
		reenter = c.N(len(want) + 1)
	}
	var got []visit
	failed := false
	var visitor func(v visit) error
	visitor = func(v visit) error {
		if failed {
			c.Fail("visit after a visitor's error", "%s: a visitor was called after another one had returned an error", w.last)
		}
		got = append(got, v)
		if len(got) > 200000 {
			c.Fail("walk does not stop", "walk of %s has made 200000 visits", w.describe(roots[0]))
		}
		if len(got)-1 == reenter {
			c.Fault("visitor walks again")
			other := pick(c, w.nodes)
			if !other.repeated() {
				n := 0
				err := other.t.Walk(true, gt.WalkSafe{}, func(*gt.Table) error { n++; return nil }, nil, nil)
				var e []visit
				other.expected(true, &e)
				tables := 0
				for _, x := range e {
					if x.kind == "table" {
						tables++
					}
				}
				if err != nil || n != tables {
					c.Fail("walk inside a walk", "walk of %s from inside a visitor: %d tables, expected %d (%v)", w.describe(other), n, tables, err)
				}
			}
		}
		if len(got)-1 == failAt {
			failed = true
			c.Fault("visitor returns an error")
			return errVisit
		}
		return nil
	}
	var vs func(*gt.TableSet) error
	var vt func(*gt.Table) error
	var vr func(gt.Row) error
	var vc func(bool, gt.CellInfo) error
	if kinds["set"] {
		vs = func(*gt.TableSet) error { return visitor(visit{"set", nil, -1, -1}) }
	}
	if kinds["table"] {
		vt = func(t *gt.Table) error { return visitor(visit{"table", t, -1, -1}) }
	}
	if kinds["row"] {
		vr = func(r gt.Row) error { return visitor(visit{"row", r.Table, -1, r.RowIndex}) }
	}
	if kinds["cell"] {
		vc = func(wn bool, ci gt.CellInfo) error {
			if wn != nested {
				c.Fail("visitor told the wrong mode", "visitCell got walkNested=%t in a walk with %t", wn, nested)
			}
			if n := w.nodeOf(ci.Table); n != nil && ci.ColIndex >= 0 && ci.ColIndex < len(n.cols) && (ci.ColName != n.cols[ci.ColIndex] || ci.ColType != n.types[ci.ColIndex]) {
				c.Fail("visitor told the wrong cell", "visitCell got col %d %s %s of %s", ci.ColIndex, ci.ColName, ci.ColType, w.describe(n))
			}
			return visitor(visit{"cell", ci.Table, ci.ColIndex, ci.RowIndex})
		}
	}
	var err error
	p, st := Try(func() {
		if asSet {
			s, e := gt.NewTableSet("s")
			if e != nil {
				c.Abandon("NewTableSet")
			}
			for _, n := range roots {
				if s.AppendTable(n.t) != nil {
					c.Abandon("AppendTable")
				}
			}
			err = s.Walk(nested, vs, vt, vr, vc)
		} else {
			err = roots[0].t.Walk(nested, gt.WalkSafe{}, vt, vr, vc)
		}
	})
	desc := fmt.Sprintf("walk(set=%t nested=%t failAt=%d) of %s", asSet, nested, failAt, w.describe(roots[0]))
	c.Ev("walk set=%t nested=%t circular=%t fail=%d -> %s after %d visits", asSet, nested, circular, failAt, errText(err), len(got))
	if p != nil {
		c.Fail("panic in Walk "+panicSite(st), "%s panicked: %v\n%s", desc, p, trimStack(st))
	}
	if circular && nested {
		c.Probe("walk of a circular structure")
		if err == nil {
			c.Fail("circular structure walked without error", "%s", desc)
		}
		if !failed {
			w.named("Walk", roots, err)
		}
		return
	}
	if failed {
		if err == nil || !strings.Contains(err.Error(), errVisit.Error()) {
			c.Fail("visitor's error not passed on", "%s: the visitor's error was not returned but: %v", desc, err)
		}
		want = want[:failAt+1]
	} else if err != nil {
		c.Fail("walk failed", "%s: %v", desc, err)
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(got) || i >= len(want) || want[i] != got[i] {
			show := func(v []visit) string {
				if i >= len(v) {
					return "nothing"
				}
				nm := ""
				if v[i].t != nil {
					nm = v[i].t.Name()
				}
				return fmt.Sprintf("%s [%s] col %d row %d", v[i].kind, nm, v[i].col, v[i].row)
			}
			c.Fail("wrong visits", "%s: visit %d is %s, expected %s (%d visits, expected %d)", desc, i, show(got), show(want), len(got), len(want))
		}
	}
	c.Probe("walk")
	if nested && !circular && roots[0].height(1) > 2 {
		c.Probe("walk of 3 or more levels")
	}
}

func (w *treeWorld) nodeOf(t *gt.Table) *gnode {
	for _, n := range w.nodes {
		if n.t == t {
			return n
		}
	}
	return nil
}

// named checks that err says it is about a circular reference, and names a table which is really met more than once.
func (w *treeWorld) named(how string, roots []*gnode, err error) {
	c := w.c
	e := gt.GetCircRefError(err)
	if !gt.HasCircRefError(err) || e == nil {
		c.Fail("circular reference error of "+how+" is not a CircRefError", "after %s, %s of %s: %v", w.last, how, w.describe(roots[0]), err)
	}
	met := map[*gnode]int{}
	var enter func(n *gnode)
	enter = func(n *gnode) {
		met[n]++
		if met[n] > 2 { // what is below a table met twice is met twice, too
			return
		}
		for _, row := range n.kids {
			for _, kid := range row {
				if kid != nil {
					enter(kid)
				}
			}
		}
	}
	for _, n := range roots {
		enter(n)
	}
	n := w.nodeOf(e.CircTable())
	if n == nil || met[n] < 2 {
		name := "<nil>"
		if n != nil {
			name = fmt.Sprintf("#%d [%s]", n.id, n.name)
		}
		c.Fail("circular reference error of "+how+" names another table", "after %s, %s of %s names %s, which is met once: %v", w.last, how, w.describe(roots[0]), name, err)
	}
}

func (w *treeWorld) judge(n *gnode) {
	c := w.c
	want := n.repeated()
	if want {
		c.Probe("circular structure judged")
	} else if n.height(1) > 2 {
		c.Probe("sound structure of 3 or more levels judged")
	}
	d := w.describe(n)
	p, st := Try(func() {
		has, err := n.t.HasCircularReference()
		if has != want || (want && err == nil) || (!want && err != nil) {
			c.Fail(fmt.Sprintf("HasCircularReference says %t", has), "after %s, HasCircularReference of %s: %t %v, expected %t", w.last, d, has, err, want)
		}
		if want {
			w.named("HasCircularReference", []*gnode{n}, err)
		}
		ok, err := n.t.IsValidTableNesting()
		if ok == want || (want && err == nil) || (!want && err != nil) {
			c.Fail(fmt.Sprintf("IsValidTableNesting says %t", ok), "after %s, IsValidTableNesting of %s: %t %v, expected %t", w.last, d, ok, err, !want)
		}
		if want {
			w.named("IsValidTableNesting", []*gnode{n}, err)
		}
		js, err := n.t.GetTableAsJSON()
		if (err != nil) != want {
			c.Fail("JSON encoder", "after %s, GetTableAsJSON of %s (circular: %t): %d bytes, error %v", w.last, d, want, len(js), err)
		}
		s, e := gt.NewTableSet("s")
		if e != nil || s.AppendTable(n.t) != nil {
			c.Abandon("NewTableSet")
		}
		ys, err := s.GetTableSetAsYAML()
		if (err != nil) != want {
			c.Fail("YAML encoder", "after %s, GetTableSetAsYAML of %s (circular: %t): %d bytes, error %v", w.last, d, want, len(ys), err)
		}
		cp, err := n.t.CopyDeep()
		if (err != nil) != want {
			c.Fail("CopyDeep", "after %s, CopyDeep of %s (circular: %t): error %v", w.last, d, want, err)
		}
		if err == nil {
			if diff := diffContents(observe(n.t), observe(cp)); diff != "" {
				c.Fail("CopyDeep differs", "after %s, CopyDeep of %s: %s", w.last, d, diff)
			}
		}
	})
	if p != nil {
		c.Fail("panic while judging "+panicSite(st), "after %s, judging %s: %v\n%s", w.last, d, p, trimStack(st))
	}
	c.Ev("judge #%d circular=%t", n.id, want)
}

// intact checks that judging and walking left every table as it was.
func (w *treeWorld) intact() {
	for _, n := range w.nodes {
		if n.t.Name() != n.name || n.t.RowCount() != len(n.kids) || n.t.ColCount() != len(n.cols) {
			w.c.Fail("table changed", "after %s, table #%d [%s] has %d rows and %d columns, expected [%s] %d %d", w.last, n.id, n.t.Name(), n.t.RowCount(), n.t.ColCount(), n.name, len(n.kids), len(n.cols))
		}
		for r, row := range n.kids {
			for k, kid := range row {
				if n.types[k] != "*Table" {
					continue
				}
				x, err := n.t.GetTableByColIndex(k, r)
				if err != nil {
					w.c.Fail("nested table unreadable", "after %s, #%d %s[%d]: %v", w.last, n.id, n.cols[k], r, err)
				}
				isNil, _ := x.IsNilTable()
				if (kid == nil) != isNil || (kid != nil && x != kid.t) {
					w.c.Fail("nested table replaced", "after %s, #%d %s[%d] does not hold the table that was put there", w.last, n.id, n.cols[k], r)
				}
			}
		}
	}
}

func runP17(c *Ctx) {
	if c.N(5) == 0 {
		runNest(c)
		return
	}
	w := &treeWorld{c: c, last: "start"}
	circles := c.N(2) == 1 // otherwise only sound structures are built
	for i := 0; i < 2+c.N(4); i++ {
		w.newNode()
	}
	most, high := 12, 8
	if c.N(12) == 11 {
		// one in another in another
		most, high = 70, 70
		w.chain(10 + c.N(40))
	}
	c.Plan(6, 30)
	for c.Step() {
		n := pick(c, w.nodes)
		switch c.N(9) {
		case 0:
			if len(w.nodes) < most {
				w.newNode()
			}
		case 1:
			if len(n.kids) < 4 {
				w.addRow(n)
				w.last = "AppendRow"
			}
		case 2:
			if len(n.kids) > 0 {
				r := c.N(len(n.kids))
				if n.t.DeleteRow(r) != nil {
					c.Abandon("DeleteRow")
				}
				n.kids = append(append([][]*gnode{}, n.kids[:r]...), n.kids[r+1:]...)
				w.last = "DeleteRow"
			}
		case 3, 4, 5:
			var ks []int
			for k, t := range n.types {
				if t == "*Table" {
					ks = append(ks, k)
				}
			}
			if len(ks) == 0 || len(n.kids) == 0 {
				break
			}
			k, r := pick(c, ks), c.N(len(n.kids))
			kid := pick(c, w.nodes)
			if c.N(6) == 5 {
				kid = nil
			}
			old := n.kids[r][k]
			n.kids[r][k] = kid
			if kid != nil && (!circles || c.N(3) > 0) {
				// every structure stays sound unless this run builds circles
				bad := false
				for _, x := range w.nodes {
					if x.repeated() {
						bad = true
					}
				}
				if bad || n.height(1) > high {
					n.kids[r][k] = old
					break
				}
			}
			var x *gt.Table
			if kid == nil {
				x = gt.NewNilTable()
			} else {
				x = kid.t
			}
			var err error
			switch c.N(4) {
			case 0:
				err = n.t.SetTable(n.cols[k], r, x)
			case 1:
				err = n.t.SetTableByColIndex(k, r, x)
			case 2:
				err = n.t.SetVal(n.cols[k], r, x)
			default:
				err = n.t.SetValByColIndex(k, r, x)
			}
			if err != nil {
				c.Abandon("SetTable: " + err.Error())
			}
			id := -1
			if kid != nil {
				id = kid.id
			}
			w.last = fmt.Sprintf("SetTable(#%d %s[%d] = #%d)", n.id, n.cols[k], r, id)
			c.Ev("%s", w.last)
			c.Ops++
		case 6:
			w.judge(n)
		default:
			roots := []*gnode{n}
			asSet := c.N(3) == 0
			if asSet {
				used := map[string]bool{n.name: true}
				for _, x := range w.nodes {
					if !used[x.name] && c.N(2) == 0 {
						used[x.name] = true
						roots = append(roots, x)
					}
				}
			}
			w.walk(roots, asSet)
			c.Ops++
		}
		w.intact()
		var h uint64
		for _, n := range w.nodes {
			if !n.repeated() {
				h = hashStr(h, w.describe(n))
			}
		}
		c.State(h)
	}
	for _, n := range w.nodes {
		w.judge(n)
	}
	w.intact()
	c.Nontriv = c.Ops >= 3
}

// ---- grouping children under parents

func runNest(c *Ctx) {
	types := []string{"int", "string", "bool", "int64", "uint8"}
	keyTypes := []string{"int", "string", "bool", "int64", "float64"}
	o := genOpt{small: true, noNaN: true, noInf: true}
	most, rows, free := 2, 9, c.N(3)
	if free > 0 {
		types, keyTypes, o.slim = textFree(flatTypes), sortableTypes, true
		if free == 2 {
			o.small, o.pool = false, map[string][]interface{}{}
		}
		most, rows = 4, pick(c, []int{9, 9, 30, 90})
	}
	var keys []Key
	for i := 0; i < 1+c.N(most); i++ {
		keys = append(keys, Key{fmt.Sprintf("k%d", i), pick(c, keyTypes), c.N(4) == 3})
	}
	mk := func(name string, rows int) *Abs {
		a := &Abs{Name: name}
		extra := c.N(3)
		for i := 0; i < extra; i++ {
			a.Cols, a.Types = append(a.Cols, fmt.Sprintf("%s_%d", name, i)), append(a.Types, pick(c, types))
		}
		for _, k := range keys {
			p := c.N(len(a.Cols) + 1)
			a.Cols = append(a.Cols[:p:p], append([]string{k.Col}, a.Cols[p:]...)...)
			a.Types = append(a.Types[:p:p], append([]string{k.Typ}, a.Types[p:]...)...)
		}
		a.Cols, a.Types = append(a.Cols, "id_"+name), append(a.Types, "int")
		for r := 0; r < rows; r++ {
			row := make([]interface{}, len(a.Cols))
			for i := range row {
				row[i] = genVal(c, a.Types[i], o)
			}
			row[len(row)-1] = r
			a.Rows = append(a.Rows, row)
		}
		return a
	}
	parents := 5 + rows/10
	if c.N(6) == 5 {
		parents = pick(c, []int{20, 40, 80})
	}
	pa, ch := mk("parent", c.N(parents)), mk("child", c.N(rows))
	pa.Struct, ch.Struct = c.N(8) == 7, c.N(8) == 7
	who := c.N(3) // who has the keys: both, parent, child
	if who != 2 {
		pa.Keys = keys
	}
	if who != 1 {
		ch.Keys = keys
	}
	pt, ct := mustBuild(c, pa), mustBuild(c, ch)
	var err error
	p, st := Try(func() { err = pt.Nest(ct, "kids") })
	c.Plan(0, 0)
	for c.Step() {
	}
	desc := fmt.Sprintf("Nest by %v (keys on %s) of child %s under parent %s", keys, []string{"both", "parent", "child"}[who], ch.canon(), pa.canon())
	c.Ev("Nest %d children under %d parents -> %s", len(ch.Rows), len(pa.Rows), errText(err))
	c.Probe("Nest")
	if p != nil {
		c.Fail("panic in Nest "+panicSite(st), "%s: %v\n%s", desc, p, trimStack(st))
	}
	if err != nil {
		c.Fail("Nest refused", "%s: %v", desc, err)
	}
	got, lerr := look(pt)
	if lerr != nil {
		c.Fail("parent unreadable after Nest", "%s: %v", desc, lerr)
	}
	if got.col("kids") < 0 || len(got.Rows) != len(pa.Rows) {
		c.Fail("Nest lost parents", "%s: %s", desc, got.canon())
	}
	idp := got.col("id_parent")
	seen := map[int]bool{}
	for r, row := range got.Rows {
		id := row[idp].(int)
		if seen[id] || id < 0 || id >= len(pa.Rows) {
			c.Fail("Nest lost parents", "%s: %s", desc, got.canon())
		}
		seen[id] = true
		for k, cn := range pa.Cols {
			if canon(row[got.col(cn)]) != canon(pa.Rows[id][k]) {
				c.Fail("Nest changed a parent cell", "%s: row %d col %s: %s", desc, r, cn, got.canon())
			}
		}
		want := map[int]bool{}
		for i, crow := range ch.Rows {
			eq := true
			for _, k := range keys {
				if cmpVal(crow[ch.col(k.Col)], pa.Rows[id][pa.col(k.Col)]) != 0 {
					eq = false
				}
			}
			if eq {
				want[i] = true
			}
		}
		text := row[got.col("kids")].(string)
		have := map[int]bool{}
		if text != "" {
			nt, perr := gt.NewTableFromString(text)
			if perr != nil {
				c.Fail("nested text unreadable", "%s: row %d holds %q: %v", desc, r, text, perr)
			}
			na := mustLook(c, nt)
			if na.Name != "kids" || fmt.Sprint(na.Cols) != fmt.Sprint(ch.Cols) || fmt.Sprint(na.Types) != fmt.Sprint(ch.Types) {
				c.Fail("nested table has the wrong shape", "%s: row %d holds %q", desc, r, text)
			}
			for _, nr := range na.Rows {
				i := nr[na.col("id_child")].(int)
				if i < 0 || i >= len(ch.Rows) || have[i] || rowCanon(nr) != rowCanon(ch.Rows[i]) {
					c.Fail("nested row wrong", "%s: row %d holds %q", desc, r, text)
				}
				have[i] = true
			}
		}
		if len(want) == 0 {
			c.Probe("parent without children")
		}
		if fmt.Sprint(want) != fmt.Sprint(have) {
			c.Fail("children under the wrong parent", "%s: parent row %d (id %d) holds children %v, expected %v", desc, r, id, have, want)
		}
	}
	cg, lerr := look(ct)
	if lerr != nil || multiset(cg.Rows) != multiset(ch.Rows) {
		c.Fail("Nest changed the children", "%s: %v", desc, lerr)
	}
	c.Ops++
	c.State(hashStr(1, desc))
	c.Nontriv = len(pa.Rows) > 0 && len(ch.Rows) > 0
}

func init() {
	register(&PropDef{ID: "P17", Mode: "plain", Run: runP17, Quick: 200000, Thorough: 3000000, Batch: 300,
		Rule: "each run: 2-12 tables nested into one another by 6-30 seeded edits (in half of the runs circular structures too), walked at seeded points with visitors that fail or walk again at a seeded visit, judged by every check and encoder; one run in five groups children under parents; non-trivial: at least 3 nestings or walks",
		Real: "gotables (all of it, unmodified), yaml.v3, Go runtime", Stub: "visitors (fail or re-enter where the simulator says), map iteration order decided by the simulator", Hang: 0})
}
