package main

import (
	"fmt"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P04: table sets

type setEntry struct {
	t *gt.Table
	m *Abs
}

type setDoc struct {
	s        *gt.TableSet
	name     string
	fileName string
	e        []*setEntry
}

func (d *setDoc) find(name string) int {
	for i, e := range d.e {
		if e.m.Name == name {
			return i
		}
	}
	return -1
}

func (d *setDoc) names() (n []string) {
	for _, e := range d.e {
		n = append(n, e.m.Name)
	}
	return
}

type regWorld struct {
	c    *Ctx
	sets []*setDoc
	gone []*setEntry // tables taken out: they must stay usable and unchanged
	last string
	o    genOpt
}

func (w *regWorld) fail(what, format string, args ...interface{}) {
	w.c.Fail("table set: "+what+" after "+w.last, "after %s: %s", w.last, fmt.Sprintf(format, args...))
}

// audit compares every set with its model.
func (w *regWorld) audit() {
	c := w.c
	p, st := Try(func() {
		for si, d := range w.sets {
			if d.s.Name() != d.name {
				w.fail("Name", "set %d is named %q, expected %q", si, d.s.Name(), d.name)
			}
			if d.s.FileName() != d.fileName {
				w.fail("FileName", "set %d has file name %q, expected %q", si, d.s.FileName(), d.fileName)
			}
			if n := d.s.TableCount(); n != len(d.e) {
				w.fail("TableCount", "set %d counts %d tables, expected %d (%v)", si, n, len(d.e), d.names())
			}
			if ok, err := d.s.IsValidTableSet(); !ok || err != nil {
				w.fail("IsValidTableSet", "%t %v", ok, err)
			}
			for i, e := range d.e {
				t, err := d.s.GetTableByTableIndex(i)
				if err != nil || t != e.t {
					w.fail("GetTableByTableIndex", "set %d index %d: not table [%s] (%v)", si, i, e.m.Name, err)
				}
				t, err = d.s.GetTable(e.m.Name)
				if err != nil || t != e.t {
					w.fail("GetTable", "set %d: [%s] is not the table that was put in (%v)", si, e.m.Name, err)
				}
				if k, err := d.s.TableIndex(e.m.Name); err != nil || k != i {
					w.fail("TableIndex", "set %d: [%s] has index %d (%v), expected %d", si, e.m.Name, k, err, i)
				}
				if has, err := d.s.HasTable(e.m.Name); !has || err != nil {
					w.fail("HasTable", "set %d: [%s] %t %v", si, e.m.Name, has, err)
				}
				got, err := look(t)
				if err != nil {
					w.fail("contents", "set %d: [%s]: %v", si, e.m.Name, err)
				}
				if diff := diffAbs(e.m, got); diff != "" {
					w.fail("contents", "set %d: [%s]: %s", si, e.m.Name, diff)
				}
			}
			near := ""
			if len(d.e) > 0 {
				near = nearName(c, d.e[c.N(len(d.e))].m.Name)
			}
			for _, absent := range []string{newName(c, d.names()), "", nameStock[c.N(len(nameStock))], near} {
				if d.find(absent) >= 0 {
					continue
				}
				if has, _ := d.s.HasTable(absent); has {
					w.fail("HasTable", "set %d: [%s] reported present among %v", si, absent, d.names())
				}
				if t, err := d.s.GetTable(absent); err == nil || t != nil {
					w.fail("GetTable", "set %d: absent [%s] returned (%v)", si, absent, err)
				}
				if _, err := d.s.TableIndex(absent); err == nil {
					w.fail("TableIndex", "set %d: absent [%s] has an index", si, absent)
				}
			}
			for _, i := range []int{-1, len(d.e), len(d.e) + 3} {
				if t, err := d.s.GetTableByTableIndex(i); err == nil || t != nil {
					w.fail("GetTableByTableIndex", "set %d: index %d of %d accepted", si, i, len(d.e))
				}
			}
		}
		for _, e := range w.gone {
			got, err := look(e.t)
			if err != nil {
				w.fail("removed table", "[%s]: %v", e.m.Name, err)
			}
			if diff := diffAbs(e.m, got); diff != "" {
				w.fail("removed table", "[%s] changed: %s", e.m.Name, diff)
			}
		}
	})
	if p != nil {
		w.fail("panic "+panicSite(st), "reading the set panicked: %v\n%s", p, trimStack(st))
	}
	var h uint64
	for _, d := range w.sets {
		for _, e := range d.e {
			h = hashStr(h, e.m.Name)
			h = mix(h, e.m.hash())
		}
		h = mix(h, 99)
	}
	c.hash = mix(c.hash, h)
	c.State(h)
}

// taken is every name that the table may not be given: those of all sets it is in.
func (w *regWorld) taken(e *setEntry) (names []string) {
	for _, d := range w.sets {
		for _, x := range d.e {
			if x == e {
				names = append(names, d.names()...)
			}
		}
	}
	return names
}

// known is, now and then, a table that exists already and may be appended to d: one taken out of a set
// earlier, or one that is in another set.
func (w *regWorld) known(d *setDoc) *setEntry {
	c := w.c
	var from []*setEntry
	switch c.N(6) {
	case 4:
		from = w.gone
	case 5:
		from = w.sets[c.N(len(w.sets))].e
	}
	if len(from) == 0 {
		return nil
	}
	e := pick(c, from)
	if d.find(e.m.Name) >= 0 {
		return nil
	}
	// a later rename must be free in every set the table is in: taken sees to that
	return e
}

func runP04(c *Ctx) {
	w := &regWorld{c: c, last: "start"}
	w.o = genOpt{nest: 1}
	newSet := func() *setDoc {
		d := &setDoc{name: pick(c, []string{"", "set", "S_2", "My Set"})}
		s, err := gt.NewTableSet(d.name)
		if err != nil {
			w.fail("NewTableSet", "%v", err)
		}
		d.s = s
		return d
	}
	for i := 0; i < 1+c.N(3); i++ {
		w.sets = append(w.sets, newSet())
	}
	most := 8
	if c.N(12) == 11 { // a set of many tables
		most = 70
		d := w.sets[0]
		for k := 10 + c.N(50); k > 0; k-- {
			a := genAbs(c, newName(c, d.names()), w.o, 2, 1, allTypes)
			t := mustBuild(c, a)
			if err := d.s.AppendTable(t); err != nil {
				w.fail("Append", "%v", err)
			}
			d.e = append(d.e, &setEntry{t, a})
		}
	}
	c.Plan(10, 60)
	for c.Step() {
		d := w.sets[c.N(len(w.sets))]
		cl := c.N(3)
		var desc string
		var call func() error
		var apply func()
		refuse := false // the call must be refused
		switch c.Weighted([]int{10, 4, 3, 4, 3, 2, 2, 2, 2, 2, 5, 3, 2}) {
		case 0: // append
			if len(d.e) >= most {
				break
			}
			e := w.known(d)
			if e != nil {
				desc = "Append known " + e.m.Name
			} else {
				a := genAbs(c, newName(c, d.names()), w.o, 3, 3, allTypes)
				e = &setEntry{mustBuild(c, a), a}
				desc = "Append " + a.Name
			}
			t := e.t
			call = func() error { return d.s.AppendTable(t) }
			if c.N(2) == 1 {
				call = func() error { return d.s.Append(t) }
			}
			apply = func() { d.e = append(d.e, e) }
		case 1: // append a second table of the same name
			if len(d.e) == 0 {
				break
			}
			n := pick(c, d.names())
			var t *gt.Table
			desc, refuse = "Append duplicate name "+n, true
			if c.N(3) == 0 { // the very table that is there
				t = d.e[d.find(n)].t
				desc += " (itself)"
			} else {
				t = mustBuild(c, genAbs(c, n, w.o, 2, 2, flatTypes))
			}
			call = func() error { return d.s.AppendTable(t) }
			if c.N(2) == 1 {
				call = func() error { return d.s.Append(t) }
			}
		case 2: // delete by name
			if len(d.e) == 0 {
				break
			}
			i := c.N(len(d.e))
			n := d.e[i].m.Name
			desc = "DeleteTable " + n
			call = func() error { return d.s.DeleteTable(n) }
			apply = func() {
				w.gone = append(w.gone, d.e[i])
				d.e = append(append([]*setEntry{}, d.e[:i]...), d.e[i+1:]...)
			}
		case 3: // delete by index
			if len(d.e) == 0 {
				break
			}
			i := c.N(len(d.e))
			desc = fmt.Sprintf("DeleteTableByTableIndex %d", i)
			call = func() error { return d.s.DeleteTableByTableIndex(i) }
			apply = func() {
				w.gone = append(w.gone, d.e[i])
				d.e = append(append([]*setEntry{}, d.e[:i]...), d.e[i+1:]...)
			}
		case 4: // rename through the set
			if len(d.e) == 0 {
				break
			}
			e := d.e[c.N(len(d.e))]
			n := newName(c, w.taken(e))
			desc = "RenameTable " + e.m.Name + " " + n
			old := e.m.Name
			call = func() error { return d.s.RenameTable(old, n) }
			apply = func() { e.m.Name = n }
		case 5: // rename onto another
			if len(d.e) < 2 {
				break
			}
			i := c.N(len(d.e))
			j := (i + 1 + c.N(len(d.e)-1)) % len(d.e)
			a, b := d.e[i].m.Name, d.e[j].m.Name
			desc, refuse = "RenameTable onto existing "+b, true
			call = func() error { return d.s.RenameTable(a, b) }
		case 6: // absent tables
			n := newName(c, d.names())
			refuse = true
			switch c.N(3) {
			case 0:
				desc = "DeleteTable absent " + n
				call = func() error { return d.s.DeleteTable(n) }
			case 1:
				desc = "RenameTable absent " + n
				call = func() error { return d.s.RenameTable(n, "zz_new") }
			default:
				i := pick(c, []int{-1, len(d.e), len(d.e) + 1})
				desc = fmt.Sprintf("DeleteTableByTableIndex out of range %d", i)
				call = func() error { return d.s.DeleteTableByTableIndex(i) }
			}
		case 7: // rename the table itself, to a name free in the set
			if len(d.e) == 0 {
				break
			}
			e := d.e[c.N(len(d.e))]
			n := newName(c, w.taken(e))
			desc = "table.SetName " + e.m.Name + " " + n
			call = func() error { return e.t.SetName(n) }
			apply = func() { e.m.Name = n }
		case 8:
			n := pick(c, []string{"set", "other", "", "a b"})
			desc = "SetName " + n
			call = func() error { return d.s.SetName(n) }
			apply = func() { d.name = n }
		case 9:
			n := pick(c, []string{"f.got", "", "/tmp/x"})
			desc = "SetFileName " + n
			call = func() error { d.s.SetFileName(n); return nil }
			apply = func() { d.fileName = n }
		case 10: // edit a table reached through the set
			if len(d.e) == 0 {
				break
			}
			e := d.e[c.N(len(d.e))]
			desc = "edit " + e.m.Name
			if len(e.m.Cols) > 0 && len(e.m.Rows) > 0 && c.N(3) > 0 {
				k, r := c.N(len(e.m.Cols)), c.N(len(e.m.Rows))
				v := genVal(c, e.m.Types[k], w.o)
				rv, err := realVal(v)
				if err != nil {
					c.Abandon("cannot build value")
				}
				n := e.m.Name
				call = func() error {
					t, err := d.s.GetTable(n)
					if err != nil {
						return err
					}
					return t.SetValByColIndex(k, r, rv)
				}
				apply = func() { e.m.Rows[r][k] = v }
			} else {
				n := newName(c, e.m.Cols)
				call = func() error { return e.t.AppendCol(n, "int") }
				apply = func() {
					e.m.Cols, e.m.Types = append(e.m.Cols, n), append(e.m.Types, "int")
					for r := range e.m.Rows {
						e.m.Rows[r] = append(e.m.Rows[r], int(0))
					}
				}
			}
		case 11: // copy the set
			if len(w.sets) >= 5 {
				break
			}
			for _, e := range d.e {
				for _, t := range e.m.Types {
					if t == "*Table" { // nested cells are the business of P14
						e = nil
						break
					}
				}
				if e == nil {
					d = nil
					break
				}
			}
			if d == nil {
				break
			}
			desc = "Copy"
			var cp *gt.TableSet
			call = func() (err error) { cp, err = d.s.Copy(); return err }
			apply = func() {
				nd := &setDoc{s: cp, name: d.name, fileName: d.fileName}
				if cp == nil || cp == d.s {
					w.fail("Copy", "the copy is not a new set")
				}
				if cp.TableCount() != len(d.e) {
					w.fail("Copy", "the copy has %d tables, expected %d", cp.TableCount(), len(d.e))
				}
				for i, e := range d.e {
					t, err := cp.GetTableByTableIndex(i)
					if err != nil {
						w.fail("Copy", "%v", err)
					}
					if t == e.t {
						w.fail("Copy", "table [%s] of the copy is the original", e.m.Name)
					}
					m := e.m.clone()
					// sort keys and struct shape are taken as the copy has them (P14 decides those)
					if got, err := look(t); err == nil {
						m.Keys, m.Struct = got.Keys, got.Struct
					}
					nd.e = append(nd.e, &setEntry{t, m})
				}
				w.sets = append(w.sets, nd)
			}
		case 12: // a new set
			if len(w.sets) < 4 {
				w.last = "NewTableSet"
				w.sets = append(w.sets, newSet())
				c.Ev("client %d: NewTableSet", cl)
			}
		}
		if call == nil {
			continue
		}
		w.last = desc[:firstSpace(desc)]
		c.Ops++
		c.Probe("op " + w.last)
		if refuse {
			c.Fault("misuse refused")
		}
		var err error
		if p, st := Try(func() { err = call() }); p != nil {
			w.fail("panic "+panicSite(st), "%s panicked: %v\n%s", desc, p, trimStack(st))
		}
		c.Ev("client %d: %s -> %s", cl, desc, errText(err))
		if refuse && err == nil {
			w.fail("not refused", "%s was accepted", desc)
		}
		if !refuse {
			if err != nil {
				w.fail("refused", "%s: %v", desc, err)
			}
			apply()
		}
		w.audit()
	}
	w.audit()
	c.Nontriv = c.Ops >= 5
}

func firstSpace(s string) int {
	for i := range s {
		if s[i] == ' ' {
			return i
		}
	}
	return len(s)
}

func init() {
	register(&PropDef{ID: "P04", Mode: "plain", Run: runP04, Quick: 80000, Thorough: 2000000, Batch: 500,
		Rule: "each run: three clients share 1-5 table sets through 10-60 seeded appends, deletes, renames, edits, copies and misuses; after every step every set (and every table taken out) is compared with its reference model through all lookups; non-trivial: at least 5 operations; distinct by hash of event log and states",
		Real: "gotables (all of it, unmodified), Go runtime", Stub: "client interleaving, map iteration order and random numbers decided by the simulator"})
}
