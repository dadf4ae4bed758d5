package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- comparison of models

// sameVal is the library's notion of equal values: times by instant, floats by ==.
func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case *Abs:
		y, ok := b.(*Abs)
		return ok && sameTable(x, y)
	}
	return a == b
}

func sameTable(a, b *Abs) bool {
	if a.Nil != b.Nil || a.Name != b.Name || len(a.Rows) != len(b.Rows) || len(a.Cols) != len(b.Cols) {
		return false
	}
	for i, cn := range a.Cols {
		k := b.col(cn)
		if k < 0 || a.Types[i] != b.Types[k] {
			return false
		}
		for r := range a.Rows {
			if !sameVal(a.Rows[r][i], b.Rows[r][k]) {
				return false
			}
		}
	}
	return true
}

// shuffleCols is the same table with its columns, and those of nested tables, in another order.
func shuffleCols(c *Ctx, a *Abs) *Abs {
	b := a.clone()
	reorderModel(b, permutation(c, len(b.Cols)))
	for _, r := range b.Rows {
		for i, v := range r {
			if t, ok := v.(*Abs); ok {
				r[i] = shuffleCols(c, t)
			}
		}
	}
	return b
}

// mutate changes one thing somewhere in the table.
func mutate(c *Ctx, a *Abs, o genOpt) (b *Abs, what string) {
	b = a.clone()
	var nested []*Abs
	for _, r := range b.Rows {
		for _, v := range r {
			if t, ok := v.(*Abs); ok && !t.Nil {
				nested = append(nested, t)
			}
		}
	}
	if len(nested) > 0 && c.N(2) == 1 {
		t := pick(c, nested)
		m, what := mutate(c, t, o)
		*t = *m
		return b, "nested " + what
	}
	for k := 0; k < 10; k++ {
		switch c.N(8) {
		case 0, 1, 2:
			if len(b.Cols) == 0 || len(b.Rows) == 0 {
				continue
			}
			i, r := c.N(len(b.Cols)), c.N(len(b.Rows))
			oo := o
			oo.nest = 1
			if v := b.Rows[r][i]; b.Types[i] != "*Table" && c.N(2) == 0 {
				b.Rows[r][i] = neighbour(c, v, oo)
			} else {
				b.Rows[r][i] = genVal(c, b.Types[i], oo)
			}
			return b, fmt.Sprintf("cell %s[%d] type %s", b.Cols[i], r, b.Types[i])
		case 3:
			b.Name = newName(c, []string{b.Name})
			return b, "name"
		case 4:
			if len(b.Cols) == 0 {
				continue
			}
			b.Cols[c.N(len(b.Cols))] = newName(c, b.Cols)
			return b, "column name"
		case 5:
			if len(b.Cols) == 0 {
				continue
			}
			i := c.N(len(b.Cols))
			b.Types[i] = pick(c, allTypes)
			for r := range b.Rows {
				if fmt.Sprintf("%T", b.Rows[r][i]) != goType(b.Types[i]) || b.Types[i] == "*Table" {
					b.Rows[r][i] = zeroOf(b.Types[i])
				}
			}
			return b, "column type"
		case 6:
			if len(b.Rows) == 0 {
				continue
			}
			r := c.N(len(b.Rows))
			b.Rows = append(b.Rows[:r:r], b.Rows[r+1:]...)
			return b, "row removed"
		case 7:
			if len(b.Rows) < 2 {
				continue
			}
			r := c.N(len(b.Rows) - 1)
			b.Rows[r], b.Rows[r+1] = b.Rows[r+1], b.Rows[r]
			return b, "rows exchanged"
		}
	}
	return b, "nothing"
}

// ---------------------------------------------------------------- P20: replicas compared

type logEntry struct {
	op      int
	doc     int
	choices []uint64
}

type packet struct{ site, seq int }

type site struct {
	docs []*Doc
	pos  int // log entries applied
	bad  bool
}

func runP20(c *Ctx) {
	w := newW(c, "P20")
	w.o.nest = 2
	w.o.deep = c.N(8) == 7
	w.o.pool = nil // replicas repeat the choices of an edit: values must not depend on what was made before
	if c.N(2) == 1 {
		w.o.noNaN = true
	}
	ops, weights := opMix(c, "1")
	nsites, ndocs := 2+c.N(2), 1+c.N(2)
	if c.Chance(1, 30) {
		nsites, ndocs = 2, 9+c.N(8)
		w.maxCols, w.maxRows, w.long = min(w.maxCols, 3), min(w.maxRows, 3), false
		c.Probe("many tables")
	}
	var starts []*Abs
	var names []string
	for i := 0; i < ndocs; i++ {
		a := genAbs(c, newName(c, names), w.o, w.maxCols, w.startRows(), w.types)
		names = append(names, a.Name)
		starts = append(starts, a)
	}
	var sites []*site
	for i := 0; i < nsites; i++ {
		s := &site{}
		for _, a := range starts {
			s.docs = append(s.docs, &Doc{mustBuild(c, a), a.clone()})
		}
		sites = append(sites, s)
	}
	var log []logEntry
	var net []packet
	apply := func(s *site, e logEntry) {
		d := s.docs[e.doc]
		_, call, app := ops[e.op].run(w, d)
		if call == nil {
			return
		}
		var err error
		if p, _ := Try(func() { err = call() }); p != nil || err != nil {
			c.Abandon("edit failed")
		}
		app()
		got, err := look(d.t)
		if err != nil {
			c.Abandon("table unreadable")
		}
		d.m = got
		c.State(got.shape())
		c.hash = hashStr(c.hash, got.canon())
	}
	equal := func(where string, ta, tb *gt.Table, a, b *Abs) {
		c.Ops++
		want := sameTable(a, b)
		c.Probe(fmt.Sprintf("compared: equal=%t", want))
		for k := 0; k < 2; k++ {
			var eq bool
			var err error
			if p, st := Try(func() { eq, err = ta.Equals(tb) }); p != nil {
				c.Fail("Equals panics "+panicSite(st), "%s: comparing\n%s\nwith\n%s\npanicked: %v\n%s", where, a.canon(), b.canon(), p, trimStack(st))
			}
			if eq != want {
				c.Fail(fmt.Sprintf("Equals says %t for tables that are equal=%t", eq, want), "%s: Equals says %t (%v) of\n%s\nand\n%s", where, eq, err, a.canon(), b.canon())
			}
			if eq && err != nil || !eq && err == nil {
				c.Fail("Equals result and error disagree", "%s: %t %v", where, eq, err)
			}
			ta, tb = tb, ta
		}
		// comparing changes nothing
		for k, t := range []*gt.Table{ta, tb} {
			m := []*Abs{a, b}[k]
			got, err := look(t)
			if err != nil || got.canon() != m.canon() {
				c.Fail("Equals changed a table", "%s: %v %s", where, err, diffAbs(m, got))
			}
		}
	}
	c.Plan(15, 70)
	for c.Step() {
		switch c.Weighted([]int{8, 8, 3, 5, 2, 3, 3, 2}) {
		case 0: // the primary edits and ships the entry
			e := logEntry{op: c.Weighted(weights), doc: c.N(ndocs)}
			e.choices = c.Capture(func() { apply(sites[0], e) })
			log = append(log, e)
			sites[0].pos = len(log)
			for i := 1; i < nsites; i++ {
				switch c.N(6) {
				case 4:
					c.Fault("message lost")
				case 5:
					c.Fault("message duplicated")
					net = append(net, packet{i, len(log) - 1}, packet{i, len(log) - 1})
				default:
					net = append(net, packet{i, len(log) - 1})
				}
			}
			c.Ev("primary: %s on %d", ops[e.op].name, e.doc)
		case 1: // the network delivers some message
			if len(net) == 0 {
				continue
			}
			i := c.N(len(net))
			m := net[i]
			net = append(net[:i:i], net[i+1:]...)
			s := sites[m.site]
			if i > 0 {
				c.Fault("message reordered")
			}
			if m.seq != s.pos || s.bad {
				c.Ev("site %d: ignores %d at %d", m.site, m.seq, s.pos)
				continue
			}
			e := log[m.seq]
			c.Playback(e.choices, func() { apply(s, e) })
			s.pos++
			c.Ev("site %d: applies %d", m.site, m.seq)
		case 2: // retransmission
			i := 1 + c.N(nsites-1)
			if sites[i].pos < len(log) {
				net = append(net, packet{i, sites[i].pos})
			}
		case 3: // two sites compare
			i, j := c.N(nsites), c.N(nsites)
			k := c.N(ndocs)
			a, b := sites[i].docs[k], sites[j].docs[k]
			c.Ev("compare site %d at %d with site %d at %d, table %d", i, sites[i].pos, j, sites[j].pos, k)
			equal(fmt.Sprintf("site %d and site %d", i, j), a.t, b.t, a.m, b.m)
			if i != j && sites[i].pos == sites[j].pos && !sites[i].bad && !sites[j].bad && a.m.canon() != b.m.canon() {
				c.Fail("same edits, different replicas", "site %d and %d applied the same %d edits but differ: %s", i, j, sites[i].pos, diffAbs(a.m, b.m))
			}
		case 4: // silent damage at a replica
			i := 1 + c.N(nsites-1)
			s := sites[i]
			k := c.N(ndocs)
			m, what := mutate(c, s.docs[k].m, w.o)
			m.Keys = nil
			s.docs[k] = &Doc{mustBuild(c, m), m}
			s.bad = true
			c.Fault("silent divergence: " + strings.SplitN(what, " ", 2)[0])
			c.Ev("site %d: damage: %s", i, what)
			equal("primary and damaged site", sites[0].docs[k].t, s.docs[k].t, sites[0].docs[k].m, m)
		case 5: // the same contents in another column order
			k := c.N(ndocs)
			d := sites[c.N(nsites)].docs[k]
			m := shuffleCols(c, d.m)
			m.Keys = nil
			c.Ev("compare with reordered columns")
			equal("table and itself with columns reordered", d.t, mustBuild(c, m), d.m, m)
		case 6: // one change
			k := c.N(ndocs)
			d := sites[c.N(nsites)].docs[k]
			m, what := mutate(c, d.m, w.o)
			m.Keys = nil
			if c.N(2) == 1 {
				m = shuffleCols(c, m)
			}
			c.Ev("compare with one change: %s", what)
			equal("table and itself with changed "+what, d.t, mustBuild(c, m), d.m, m)
		case 7: // whole table sets
			i, j := c.N(nsites), c.N(nsites)
			mk := func(s *site, swap bool) (*gt.TableSet, []*Abs) {
				ts, _ := gt.NewTableSet("s")
				var ms []*Abs
				ds := append([]*Doc{}, s.docs...)
				if swap {
					for l, r := 0, len(ds)-1; l < r; l, r = l+1, r-1 {
						ds[l], ds[r] = ds[r], ds[l]
					}
				}
				for _, d := range ds {
					if err := ts.AppendTable(d.t); err != nil {
						continue
					}
					ms = append(ms, d.m)
				}
				return ts, ms
			}
			s1, m1 := mk(sites[i], false)
			s2, m2 := mk(sites[j], c.N(3) == 2)
			if len(m1) > 0 && c.N(3) == 2 { // the same set, but for one of its tables
				k := c.N(len(m1))
				s2, _ = gt.NewTableSet("s")
				m2 = append([]*Abs{}, m1...)
				var what string
				m2[k], what = mutate(c, m1[k], w.o)
				for _, m := range m2 {
					if err := s2.AppendTable(mustBuild(c, m)); err != nil {
						c.Abandon("AppendTable")
					}
				}
				c.Ev("table %d of site %d's set with another %s", k, i, what)
			}
			want := len(m1) == len(m2)
			for k := range m1 {
				want = want && sameTable(m1[k], m2[k])
			}
			c.Ops++
			c.Ev("compare table sets of sites %d %d", i, j)
			for k := 0; k < 2; k++ {
				var eq bool
				var err error
				if p, st := Try(func() { eq, err = s1.Equals(s2) }); p != nil {
					c.Fail("TableSet.Equals panics "+panicSite(st), "%v\n%s", p, trimStack(st))
				}
				if eq != want {
					c.Fail(fmt.Sprintf("TableSet.Equals says %t for sets that are equal=%t", eq, want), "site %d and %d (%v)", i, j, err)
				}
				s1, s2 = s2, s1
			}
		}
	}
	// The network heals: damaged sites are restored, everything missing is sent again.
	for i := 1; i < nsites; i++ {
		s := sites[i]
		if s.bad {
			continue
		}
		for s.pos < len(log) {
			e := log[s.pos]
			c.Playback(e.choices, func() { apply(s, e) })
			s.pos++
		}
		for k := range s.docs {
			a, b := sites[0].docs[k], s.docs[k]
			if a.m.canon() != b.m.canon() {
				c.Fail("same edits, different replicas", "site %d applied all %d edits but differs: %s", i, s.pos, diffAbs(a.m, b.m))
			}
			equal("primary and healed site", a.t, b.t, a.m, b.m)
		}
	}
	c.State(mix(uint64(len(log)), uint64(len(net))))
	c.Nontriv = c.Ops >= 3
}

// ---------------------------------------------------------------- ordering

// cmpVal orders key values as documented: strings without regard to case, then upper case first.
func cmpVal(a, b interface{}) int {
	sign := func(lt, gt bool) int {
		if lt {
			return -1
		}
		if gt {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case string:
		y := b.(string)
		if r := strings.Compare(strings.ToLower(x), strings.ToLower(y)); r != 0 {
			return r
		}
		return strings.Compare(x, y)
	case bool:
		y := b.(bool)
		return sign(!x && y, x && !y)
	case int:
		return sign(x < b.(int), x > b.(int))
	case int8:
		return sign(x < b.(int8), x > b.(int8))
	case int16:
		return sign(x < b.(int16), x > b.(int16))
	case int32:
		return sign(x < b.(int32), x > b.(int32))
	case int64:
		return sign(x < b.(int64), x > b.(int64))
	case uint:
		return sign(x < b.(uint), x > b.(uint))
	case uint8:
		return sign(x < b.(uint8), x > b.(uint8))
	case uint16:
		return sign(x < b.(uint16), x > b.(uint16))
	case uint32:
		return sign(x < b.(uint32), x > b.(uint32))
	case uint64:
		return sign(x < b.(uint64), x > b.(uint64))
	case float32:
		return sign(x < b.(float32), x > b.(float32))
	case float64:
		return sign(x < b.(float64), x > b.(float64))
	}
	panic(fmt.Sprintf("harness: cmpVal %T", a))
}

func (a *Abs) cmpRows(x, y []interface{}, keys []Key, ignoreReverse bool) int {
	for _, k := range keys {
		i := a.col(k.Col)
		r := cmpVal(x[i], y[i])
		if k.Rev && !ignoreReverse {
			r = -r
		}
		if r != 0 {
			return r
		}
	}
	return 0
}

var sortableTypes = []string{"int", "string", "bool", "float64", "uint8", "float32", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64"}

// ---------------------------------------------------------------- P16: merging replicas

// missing tells whether a value counts as no value.
func missing(v interface{}) bool {
	switch x := v.(type) {
	case float64:
		return x == 0 || math.IsNaN(x)
	case float32:
		return x == 0 || x != x
	case string:
		return x == ""
	case bool:
		return !x
	case []byte:
		return len(x) == 0
	case time.Time:
		return x.Equal(time.Time{})
	case *Abs:
		return x.Nil
	case int:
		return x == 0
	case int8:
		return x == 0
	case int16:
		return x == 0
	case int32:
		return x == 0
	case int64:
		return x == 0
	case uint:
		return x == 0
	case uint8:
		return x == 0
	case uint16:
		return x == 0
	case uint32:
		return x == 0
	case uint64:
		return x == 0
	}
	panic(fmt.Sprintf("harness: missing %T", v))
}

func keyCanon(v interface{}) string {
	switch x := v.(type) {
	case float64:
		return fmt.Sprint("f", x+0)
	case float32:
		return fmt.Sprint("f", x+0)
	}
	return canon(v)
}

func (a *Abs) keyOf(row []interface{}, keys []Key) string {
	var b strings.Builder
	for _, k := range keys {
		b.WriteString(keyCanon(row[a.col(k.Col)]))
		b.WriteByte(0)
	}
	return b.String()
}

// checkMerge compares a merge result with what the two inputs allow.
func checkMerge(c *Ctx, what string, t1, t2, got *Abs, keys []Key, sameTables bool) {
	fail := func(sig, format string, args ...interface{}) {
		c.Fail(what+": "+sig, "%s of\n%s\nand\n%s\ngave\n%s\n%s", what, t1.canon(), t2.canon(), got.canon(), fmt.Sprintf(format, args...))
	}
	// columns
	union := map[string]string{}
	for i, cn := range t1.Cols {
		union[cn] = t1.Types[i]
	}
	for i, cn := range t2.Cols {
		union[cn] = t2.Types[i]
	}
	if len(got.Cols) != len(union) {
		fail("columns", "expected the union %v", union)
	}
	for i, cn := range got.Cols {
		if union[cn] != got.Types[i] {
			fail("columns", "column %s has type %s, expected %q", cn, got.Types[i], union[cn])
		}
	}
	if fmt.Sprint(got.Keys) != fmt.Sprint(keys) {
		fail("sort keys", "the result has sort keys %v, expected %v", got.Keys, keys)
	}
	if err := got.typesOK(); err != nil {
		fail("types", "%v", err)
	}
	// rows by key
	rows1, rows2 := map[string][][]interface{}{}, map[string][][]interface{}{}
	all := map[string]bool{}
	for _, r := range t1.Rows {
		k := t1.keyOf(r, keys)
		rows1[k] = append(rows1[k], r)
		all[k] = true
	}
	for _, r := range t2.Rows {
		k := t2.keyOf(r, keys)
		rows2[k] = append(rows2[k], r)
		all[k] = true
	}
	seen := map[string]bool{}
	for ri, r := range got.Rows {
		k := got.keyOf(r, keys)
		if !all[k] {
			fail("invented key", "row %d has a key that is in neither table", ri)
		}
		if seen[k] {
			fail("key twice", "row %d repeats a key", ri)
		}
		seen[k] = true
		if ri > 0 && got.cmpRows(got.Rows[ri-1], r, keys, false) > 0 {
			fail("not sorted", "rows %d and %d are out of order", ri-1, ri)
		}
		for i, cn := range got.Cols {
			isKey := false
			for _, kk := range keys {
				isKey = isKey || kk.Col == cn
			}
			if isKey {
				continue
			}
			collect := func(t *Abs, rows [][]interface{}) (vals, all []interface{}) {
				j := t.col(cn)
				if j < 0 {
					return
				}
				for _, x := range rows {
					all = append(all, x[j])
					if !missing(x[j]) {
						vals = append(vals, x[j])
					}
				}
				return
			}
			v1, a1 := collect(t1, rows1[k])
			v2, a2 := collect(t2, rows2[k])
			cand := v1
			if len(cand) == 0 || sameTables {
				cand = append(cand, v2...)
			}
			ok := false
			for _, x := range cand {
				ok = ok || canon(x) == canon(r[i])
			}
			if len(cand) == 0 {
				if isFloat(got.Types[i]) {
					zero := false
					for _, x := range append(a1, a2...) {
						zero = zero || x == zeroOf(got.Types[i]) || canonZero(x)
					}
					if zero {
						ok = canonZero(r[i])
					} else {
						ok = r[i] != r[i] // NaN
					}
				} else {
					ok = missing(r[i])
				}
			}
			if !ok {
				fail("wrong cell", "cell %s of row %d is %s; the first table has %v, the second %v", cn, ri, shortVal(r[i]), valList(a1), valList(a2))
			}
		}
	}
	if len(seen) != len(all) {
		fail("key lost", "%d distinct keys went in, %d rows came out", len(all), len(got.Rows))
	}
}

func canonZero(v interface{}) bool {
	switch x := v.(type) {
	case float64:
		return x == 0
	case float32:
		return x == 0
	}
	return false
}

func valList(v []interface{}) (s []string) {
	for _, x := range v {
		s = append(s, shortVal(x))
	}
	return
}

func keyList(v []interface{}) string {
	var b strings.Builder
	for _, x := range v {
		b.WriteString(keyCanon(x))
		b.WriteByte(0)
	}
	return b.String()
}

type fact struct {
	key  []interface{}
	col  string
	val  interface{}
	site int
}

// mergeName is a column name; now and then one that a merge might want for itself.
func mergeName(c *Ctx, used []string) string {
	if c.N(24) == 23 {
		n := pick(c, []string{"_TABLE_", "_DELETE_", "_TABLE__", "_DELETE__", "_TABLE", "Merged"})
		for _, u := range used {
			if u == n {
				return newName(c, used)
			}
		}
		return n
	}
	return newName(c, used)
}

func runP16(c *Ctx) {
	o := genOpt{noNaN: true, nest: 0}
	keyOpt := genOpt{small: true, noNaN: true}
	if c.N(3) == 2 {
		keyOpt = genOpt{noNaN: true, pool: map[string][]interface{}{}}
	}
	// A shared schema: key columns and fact columns. Each site starts with some of the fact columns.
	nk := 1 + c.N(2)
	var keys []Key
	var used []string
	for i := 0; i < nk; i++ {
		n := mergeName(c, used)
		used = append(used, n)
		keys = append(keys, Key{n, pick(c, sortableTypes), c.N(3) == 2})
	}
	type colDef struct{ name, typ string }
	var cols []colDef
	for i := 0; i < 1+c.N(5); i++ {
		n := mergeName(c, used)
		used = append(used, n)
		cols = append(cols, colDef{n, pick(c, flatTypes)})
	}
	nsites := 2 + c.N(3)
	sites := make([]*gt.Table, nsites)
	model := make([]*Abs, nsites)
	for i := range sites {
		a := &Abs{Name: newName(c, nil)}
		for _, k := range permutation(c, nk) {
			a.Cols, a.Types = append(a.Cols, keys[k].Col), append(a.Types, keys[k].Typ)
		}
		for _, d := range cols {
			if c.N(4) > 0 {
				a.Cols, a.Types = append(a.Cols, d.name), append(a.Types, d.typ)
			}
		}
		reorderModel(a, permutation(c, len(a.Cols)))
		a.Keys = keys
		sites[i] = mustBuild(c, a)
		model[i] = a
	}
	facts := map[string]*fact{} // key+col -> the only value ever written
	rowsWritten := map[string][]interface{}{}
	type msg struct {
		to int
		a  *Abs
	}
	var net []msg
	observe := func(i int) *Abs {
		got, err := look(sites[i])
		if err != nil {
			c.Fail("unreadable", "site %d: %v", i, err)
		}
		return got
	}
	merge := func(i int, other *gt.Table, what string) {
		before1, before2 := observe(i), mustLook(c, other)
		var m *gt.Table
		var err error
		if p, st := Try(func() { m, err = sites[i].Merge(other) }); p != nil {
			c.Fail("Merge panics "+panicSite(st), "%s: merging\n%s\nand\n%s\npanicked: %v\n%s", what, before1.canon(), before2.canon(), p, trimStack(st))
		}
		if err != nil {
			c.Fail("Merge refused", "%s: merging\n%s\nand\n%s\nfailed: %v", what, before1.canon(), before2.canon(), err)
		}
		if m == sites[i] || m == other {
			c.Fail("Merge returned an input", "%s: the result of the merge is one of its inputs", what)
		}
		got, err := look(m)
		if err != nil {
			c.Fail("merged table unreadable", "%v", err)
		}
		checkMerge(c, "Merge", before1, before2, got, keys, false)
		if valid, err := m.IsValidTable(); !valid {
			c.Fail("merged table invalid", "%v", err)
		}
		if a := observe(i); a.canon() != before1.canon() {
			c.Fail("Merge changed its first table", "%s", diffAbs(before1, a))
		}
		if a := mustLook(c, other); a.contents() != before2.contents() {
			c.Fail("Merge changed its second table", "%s", diffAbs(before2, a))
		}
		sites[i] = m
		model[i] = got
		c.State(got.shape())
		c.hash = hashStr(c.hash, got.canon())
	}
	newKey := func() []interface{} {
		var k []interface{}
		for i := range keys {
			k = append(k, genVal(c, keys[i].Typ, keyOpt))
		}
		return k
	}
	serial := 0
	freshVal := func(typ string) interface{} {
		serial++
		for k := 0; k < 20; k++ {
			v := genVal(c, typ, o)
			if !missing(v) {
				return v
			}
		}
		return genVal(c, typ, genOpt{noNaN: true})
	}
	c.Plan(8, 40)
	for c.Step() {
		i := c.N(nsites)
		switch c.Weighted([]int{8, 6, 6, 2, 2, 3}) {
		case 0: // a site records a fact about a key
			key := newKey()
			a := observe(i)
			row := -1
			for r := range a.Rows {
				same := true
				for x, k := range keys {
					same = same && keyCanon(a.Rows[r][a.col(k.Col)]) == keyCanon(key[x])
				}
				if same {
					row = r
				}
			}
			t := sites[i]
			var err error
			if row < 0 || c.N(8) == 7 { // sometimes a second row for the same key
				if len(a.Rows) > 12 {
					continue
				}
				err = t.AppendRow()
				row = t.RowCount() - 1
				for x, k := range keys {
					if err == nil {
						err = t.SetVal(k.Col, row, key[x])
					}
				}
				for k, typ := range a.Types {
					// a row starts with no value in its float cells, as a merged row does
					if isFloat(typ) && err == nil && c.N(2) == 1 && !isKeyCol(keys, a.Cols[k]) {
						err = t.SetVal(a.Cols[k], row, nanOf(typ))
					}
				}
			}
			d := pick(c, cols)
			if a.col(d.name) < 0 {
				if err == nil {
					err = t.AppendCol(d.name, d.typ)
				}
			}
			kc := keyList(key)
			rowsWritten[kc] = key
			f := facts[kc+d.name]
			if f == nil {
				f = &fact{key: key, col: d.name, val: freshVal(d.typ), site: i}
				if missing(f.val) {
					f = nil
				} else {
					facts[kc+d.name] = f
				}
			}
			if f != nil && err == nil {
				v, _ := realVal(f.val)
				err = t.SetVal(d.name, row, v)
			}
			if err != nil {
				c.Abandon("edit failed")
			}
			c.Ops++
			c.Ev("site %d: fact %q %s", i, kc, d.name)
		case 1: // send the table to another site
			j := (i + 1 + c.N(nsites-1)) % nsites
			m := msg{j, observe(i)}
			switch c.N(6) {
			case 4:
				c.Fault("message lost")
			case 5:
				c.Fault("message duplicated")
				net = append(net, m, m)
			default:
				net = append(net, m)
			}
			c.Ev("site %d: sends to %d", i, j)
		case 2: // deliver
			if len(net) == 0 {
				continue
			}
			k := c.N(len(net))
			m := net[k]
			net = append(net[:k:k], net[k+1:]...)
			if k > 0 {
				c.Fault("message reordered")
			}
			c.Ops++
			c.Ev("site %d: merges a message", m.to)
			merge(m.to, mustBuild(c, m.a), fmt.Sprintf("site %d merging a message", m.to))
		case 3: // remove duplicates
			before := observe(i)
			args := []string{}
			ks := keys
			if c.N(3) == 2 {
				ks = nil
				for _, k := range keys {
					args = append(args, k.Col)
					ks = append(ks, Key{k.Col, k.Typ, false})
				}
			}
			var u *gt.Table
			var err error
			if p, st := Try(func() { u, err = sites[i].SortUnique(args...) }); p != nil {
				c.Fail("SortUnique panics "+panicSite(st), "of\n%s\npanicked: %v\n%s", before.canon(), p, trimStack(st))
			}
			if err != nil {
				c.Fail("SortUnique refused", "of\n%s\nfailed: %v", before.canon(), err)
			}
			got, err := look(u)
			if err != nil {
				c.Fail("unreadable after SortUnique", "%v", err)
			}
			c.Ops++
			c.Ev("site %d: SortUnique", i)
			checkMerge(c, "SortUnique", before, before, got, ks, true)
			if got.Name != before.Name {
				c.Fail("SortUnique: name", "%s became %s", before.Name, got.Name)
			}
			if a := observe(i); a.contents() != before.contents() {
				c.Fail("SortUnique changed its table", "%s", diffAbs(before, a))
			}
			if len(args) == 0 {
				sites[i], model[i] = u, got
			} else {
				// SortUnique with arguments sets the keys; put the world's keys back
				if err := sites[i].SetSortKeys(args...); err != nil {
					c.Abandon("edit failed")
				}
				var rev []string
				for _, k := range keys {
					if k.Rev {
						rev = append(rev, k.Col)
					}
				}
				if err := sites[i].SetSortKeysReverse(rev...); err != nil {
					c.Abandon("edit failed")
				}
			}
		case 4: // a site is wiped (a new, empty replica joins)
			if c.N(2) == 0 {
				continue
			}
			a := model[i].clone()
			a.Rows = nil
			a.Keys = keys
			// its facts survive only if someone else has them: keep them by sending them on first
			net = append(net, msg{(i + 1) % nsites, observe(i)})
			a.Name = newName(c, nil)
			sites[i], model[i] = mustBuild(c, a), a
			c.Fault("replica restarted empty")
			c.Ev("site %d: restarts empty", i)
		case 5: // arbitrary merge of two foreign tables with the same keys, conflicting values and duplicates allowed
			oo := genOpt{small: c.N(2) == 1}
			edgy := c.N(4) == 3 // floats at their edges
			rowsMost, cols, keyOpt := 6, cols, keyOpt
			switch c.N(24) {
			case 22: // many rows
				rowsMost = 20 + c.N(70)
				oo.slim = true
				if c.N(3) > 0 {
					keyOpt = genOpt{noNaN: true, nest: 0, slim: true}
				}
				c.Probe("merge of long tables")
			case 23: // many columns
				cols = append([]colDef{}, cols...)
				taken := append([]string{}, used...)
				for k := 4 + c.N(16); k > 0; k-- {
					n := newName(c, taken)
					taken = append(taken, n)
					cols = append(cols, colDef{n, pick(c, flatTypes)})
				}
				c.Probe("merge of wide tables")
			}
			mk := func() *Abs {
				a := &Abs{Name: newName(c, nil)}
				for _, k := range keys {
					a.Cols, a.Types = append(a.Cols, k.Col), append(a.Types, k.Typ)
				}
				for _, d := range cols {
					if c.N(3) > 0 {
						a.Cols, a.Types = append(a.Cols, d.name), append(a.Types, d.typ)
					}
				}
				for r := c.N(rowsMost); r > 0; r-- {
					var row []interface{}
					for k, typ := range a.Types {
						if k < nk {
							row = append(row, genVal(c, typ, keyOpt))
						} else if edgy && isFloat(typ) {
							x := pick(c, []float64{0, 0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1})
							if typ == "float32" {
								row = append(row, float32(x))
							} else {
								row = append(row, x)
							}
						} else {
							row = append(row, genVal(c, typ, oo))
						}
					}
					a.Rows = append(a.Rows, row)
				}
				a.Keys = keys
				return a
			}
			a1, a2 := mk(), mk()
			was := keys
			if c.N(8) == 7 { // the same key again
				keys = append(append([]Key{}, keys...), pick(c, keys))
				a1.Keys, a2.Keys = keys, keys
				c.Probe("a column is a key twice")
			}
			if c.N(3) == 2 { // keys that are not the same in both: the first table's count
				vary := func() (ks []Key) {
					for _, x := range permutation(c, nk) {
						if len(ks) == 0 || c.N(3) > 0 {
							ks = append(ks, Key{was[x].Col, was[x].Typ, c.N(2) == 1})
						}
					}
					return
				}
				a1.Keys, a2.Keys = vary(), vary()
				keys = a1.Keys
				if c.N(4) == 3 {
					a1.Keys, keys = nil, a2.Keys
				}
				c.Probe("merge of tables with different sort keys")
			} else if c.N(4) == 3 {
				a2.Keys = nil // keys set in one of them are enough
			} else if c.N(4) == 3 {
				a1.Keys = nil
			}
			save, saveM := sites[i], model[i]
			sites[i] = mustBuild(c, a1)
			c.Ops++
			c.Ev("merge of foreign tables")
			merge(i, mustBuild(c, a2), "foreign tables")
			sites[i], model[i] = save, saveM
			keys = was
		}
	}
	// The network heals: everything in flight arrives, then every site hears from every other.
	for _, m := range net {
		merge(m.to, mustBuild(c, m.a), "late message")
	}
	for round := 0; round < 2; round++ {
		for i := 1; i < nsites; i++ {
			merge(0, mustBuild(c, observe(i)), "anti-entropy")
		}
		for i := 1; i < nsites; i++ {
			merge(i, mustBuild(c, observe(0)), "anti-entropy")
		}
	}
	for i := range sites {
		a := observe(i)
		if len(a.Rows) != len(rowsWritten) && len(rowsWritten) > 0 {
			c.Fail("convergence: rows", "after all exchanges site %d has %d rows, but %d distinct keys were written\n%s", i, len(a.Rows), len(rowsWritten), a.canon())
		}
		byKey := map[string][]interface{}{}
		for _, r := range a.Rows {
			var kv []interface{}
			for _, k := range keys {
				kv = append(kv, r[a.col(k.Col)])
			}
			byKey[keyList(kv)] = r
		}
		var ids []string
		for id := range facts {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			f := facts[id]
			r := byKey[keyList(f.key)]
			if r == nil {
				c.Fail("convergence: key lost", "site %d has no row for key %v\n%s", i, valList(f.key), a.canon())
			}
			k := a.col(f.col)
			if k < 0 || canon(r[k]) != canon(f.val) {
				c.Fail("convergence: fact lost", "site %d does not have fact %v %s = %s\n%s", i, valList(f.key), f.col, shortVal(f.val), a.canon())
			}
		}
	}
	c.Nontriv = c.Ops >= 5
}

func isKeyCol(keys []Key, name string) bool {
	for _, k := range keys {
		if k.Col == name {
			return true
		}
	}
	return false
}

func mustLook(c *Ctx, t *gt.Table) *Abs {
	a, err := look(t)
	if err != nil {
		c.Fail("unreadable table", "%v", err)
	}
	return a
}

func init() {
	register(&PropDef{ID: "P16", Mode: "plain", Run: runP16, Quick: 60000, Thorough: 1000000, Batch: 250,
		Rule: "each run: 2-4 replicas of a keyed table record write-once facts and exchange whole tables over a simulated network that loses, duplicates and reorders them, merging what arrives; every merge (and SortUnique, and merges of conflicting foreign tables) is checked against the two inputs, and after the network heals every replica must hold every fact exactly once; non-trivial: at least 5 operations; distinct by hash of event log and merged tables",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "network, replica restarts, client interleaving, map iteration order and random numbers decided by the simulator"})
	register(&PropDef{ID: "P20", Mode: "plain", Run: runP20, Quick: 120000, Thorough: 1000000, Batch: 250,
		Rule: "each run: a primary and 1-2 replicas follow a log of seeded edits over a simulated network that loses, duplicates and reorders entries; replicas at any lag, silently damaged replicas, single changes at any nesting depth, reordered columns and whole table sets are compared both ways with the reference comparison; after healing, replicas must be equal; non-trivial: at least 3 comparisons; distinct by hash of event log",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "network, client interleaving, map iteration order and random numbers decided by the simulator"})
}
