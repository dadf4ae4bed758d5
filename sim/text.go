package main

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P05, P06: text and files

type textWorld struct {
	W
	disk  *Disk
	hard  bool
	files map[string]*savedFile
	ops   []op
	wts   []int
}

// savedFile is what a file on the disk should hold.
type savedFile struct {
	setName string
	tables  []*Abs
	asTable bool
	unsure  bool // a save failed: the file may hold anything
}

func textFree(types []string) []string {
	var out []string
	for _, t := range types {
		if t != "*Table" {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		out = flatTypes
	}
	return out
}

// storable is what text keeps of a table: rows without columns have nothing to write.
func storable(a *Abs) *Abs {
	b := a.clone()
	if len(b.Cols) == 0 {
		b.Rows = nil
	}
	return b
}

func (w *textWorld) same(how string, want []*Abs, got []*gt.Table) []*Abs {
	c := w.c
	if len(want) != len(got) {
		c.Fail(how+": wrong number of tables", "%s: %d tables went in, %d came out", how, len(want), len(got))
	}
	var out []*Abs
	for i := range want {
		if got[i] == nil {
			c.Fail(how+": nil table without an error", "%s: table %d is nil but no error was returned", how, i)
		}
		a, err := look(got[i])
		if err != nil {
			c.Fail(how+": loaded table unreadable", "%s: [%s] cannot be read after loading: %v", how, want[i].Name, err)
		}
		if d := diffContents(storable(want[i]), a); d != "" {
			c.Fail(how+": not what was saved", "%s: %s\nsaved:  %s\nloaded: %s", how, d, want[i].contents(), a.contents())
		}
		if shape := want[i].Struct && len(want[i].Cols) > 0 && len(want[i].Rows) <= 1; shape != a.Struct {
			c.Fail(how+": shape lost", "%s: saved struct shaped: %t, loaded struct shaped: %t\n%s", how, shape, a.Struct, want[i].contents())
		}
		if err := a.typesOK(); err != nil {
			c.Fail(how+": loaded table has a wrong type", "%s: %v", how, err)
		}
		if ok, err := got[i].IsValidTable(); !ok || err != nil {
			c.Fail(how+": loaded table invalid", "%s: IsValidTable: %v %v", how, ok, err)
		}
		out = append(out, a)
	}
	return out
}

func (w *textWorld) makeSet(docs []*Doc, name string) *gt.TableSet {
	var ts []*gt.Table
	for _, d := range docs {
		ts = append(ts, d.t)
	}
	s, err := w.c.again(ts, name)
	if err != nil {
		w.c.Abandon("AppendTable")
	}
	return s
}

// chosen picks documents of a client with different names.
func (w *textWorld) chosen(cl []*Doc) []*Doc {
	if out := w.before(cl); out != nil {
		return out
	}
	var out []*Doc
	defer func() { w.picked = out }()
	for _, d := range cl {
		dup := false
		for _, o := range out {
			dup = dup || o.m.Name == d.m.Name
		}
		if !dup && (w.c.N(3) > 0 || len(out) == 0) {
			out = append(out, d)
		}
	}
	return out
}

func models(docs []*Doc) (out []*Abs) {
	for _, d := range docs {
		out = append(out, d.m.clone())
	}
	return
}

// textOf renders a set or a table, in one of the forms there are.
func textOf(c *Ctx, s *gt.TableSet, t *gt.Table) (form, text string) {
	if s != nil {
		switch c.N(3) {
		case 0:
			return "TableSet.String", s.String()
		case 1:
			return "TableSet.StringUnpadded", s.StringUnpadded()
		default:
			return "TableSet.StringPadded", s.StringPadded()
		}
	}
	switch c.N(3) {
	case 0:
		return "Table.String", t.String()
	case 1:
		return "Table.StringUnpadded", t.StringUnpadded()
	default:
		return "Table.StringPadded", t.StringPadded()
	}
}

// mail sends documents as text, and another client reads them.
func contentsOf(want []*Abs) string {
	if len(want) == 0 {
		return "none"
	}
	return want[0].contents()
}

func (w *textWorld) mail(docs []*Doc) {
	c := w.c
	want := models(docs)
	setName := pick(c, []string{"", "Set_1", "x"})
	var form, text string
	var loader int
	p, st := Try(func() {
		if len(docs) == 1 && c.N(2) == 0 {
			form, text = textOf(c, nil, docs[0].t)
			setName = ""
		} else {
			form, text = textOf(c, w.makeSet(docs, setName), nil)
		}
	})
	if p != nil {
		c.Fail("panic while printing "+panicSite(st), "printing %s panicked: %v\n%s", contentsOf(want), p, trimStack(st))
	}
	var got []*gt.Table
	var gotName string
	var err error
	how := form
	loader = c.N(4)
	if len(want) == 0 {
		loader = 0
	}
	p, st = Try(func() {
		switch loader {
		case 1:
			if len(want) == 1 {
				var t *gt.Table
				if c.N(3) == 0 {
					how += " > NewTableFromStringMustMake"
					t = gt.NewTableFromStringMustMake(text)
				} else {
					how += " > NewTableFromString"
					t, err = gt.NewTableFromString(text)
				}
				got, gotName = []*gt.Table{t}, setName
				return
			}
			fallthrough
		case 2:
			how += " > NewTableFromStringByTableName"
			for _, a := range want {
				var t *gt.Table
				if t, err = gt.NewTableFromStringByTableName(text, a.Name); err != nil {
					return
				}
				got = append(got, t)
			}
			gotName = setName
		case 3:
			how += " > NewTableFromStringByTableIndex"
			for i := range want {
				var t *gt.Table
				if t, err = gt.NewTableFromStringByTableIndex(text, i); err != nil {
					return
				}
				got = append(got, t)
			}
			gotName = setName
		default:
			how += " > NewTableSetFromString"
			var s *gt.TableSet
			if s, err = gt.NewTableSetFromString(text); err != nil {
				return
			}
			got, gotName = tablesOf(s), s.Name()
		}
	})
	c.Ops++
	c.Probe(how)
	c.Ev("mail %d tables: %s, %d bytes", len(want), how, len(text))
	if p != nil {
		c.Fail(how+": panic while loading", "%s panicked: %v\ntext:\n%s\n%s", how, p, text, trimStack(st))
	}
	if err != nil {
		c.Fail(how+": own text refused", "%s: %v\ntables: %s\ntext:\n%s", how, err, contentsOf(want), text)
	}
	if gotName != setName {
		c.Fail(how+": table set name lost", "%s: set name %q became %q", how, setName, gotName)
	}
	ms := w.same(how, want, got)
	if c.N(5) == 4 {
		onlyOne(c, "NewTableFromString", want, text, func() (*gt.Table, error) {
			if c.N(2) == 0 {
				return mustMake(text)
			}
			return gt.NewTableFromString(text)
		}, func(n string) (*gt.Table, error) { return gt.NewTableFromStringByTableName(text, n) },
			func(i int) (*gt.Table, error) { return gt.NewTableFromStringByTableIndex(text, i) })
	}
	for i, d := range docs { // the receiver carries on with what it got
		if c.N(2) == 0 {
			d.t, d.m = got[i], ms[i]
		}
	}
}

// onlyOne asks for one table where there is not exactly one, or not that one:
// a reader must refuse rather than hand over something else.
func onlyOne(c *Ctx, how string, want []*Abs, text string, one func() (*gt.Table, error), byName func(string) (*gt.Table, error), byIndex func(int) (*gt.Table, error)) {
	var t *gt.Table
	var err error
	var sig string
	p, st := Try(func() {
		switch r := c.N(4); {
		case r == 0 && byIndex != nil:
			sig = "there is no table at that index"
			how += "ByTableIndex"
			t, err = byIndex(pick(c, []int{len(want), -1, len(want) + 5}))
		case r <= 1 && byName != nil:
			sig = "there is no table of that name"
			how += "ByTableName"
			name := pick(c, []string{"Absent_", "", "nil", "T_9999"})
			if c.N(2) == 0 && len(want) > 0 {
				name = want[c.N(len(want))].Name + pick(c, []string{"_", "x"})
			}
			for _, a := range want {
				if a.Name == name || name == "" && a.Nil {
					name += "_absent"
				}
			}
			for _, a := range want {
				if a.Name == name {
					sig = ""
					return
				}
			}
			t, err = byName(name)
		case len(want) != 1:
			sig = "there is not exactly one table"
			t, err = one()
		}
	})
	if sig == "" || p == nil && t == nil && err != nil {
		if sig != "" {
			c.Probe(how + " refused: " + sig)
		}
		return
	}
	if p != nil {
		c.Fail("panic in "+how, "%v\ntext:\n%s\n%s", p, text, trimStack(st))
	}
	what := "<nil>"
	if t != nil {
		Try(func() { what = t.String() })
	}
	c.Fail(how+": no error though "+sig, "%s gave table %s and error %v although %s; %d tables in:\n%s", how, head(what, 300), err, sig, len(want), text)
}

// mustMake is NewTableFromStringMustMake, its panic turned into an error again.
func mustMake(text string) (t *gt.Table, err error) {
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(error)
			if _, crash := p.(runtime.Error); !ok || crash {
				panic(p)
			}
			err = e
		}
	}()
	return gt.NewTableFromStringMustMake(text), nil
}

func tablesOf(s *gt.TableSet) (out []*gt.Table) {
	for i := 0; i < s.TableCount(); i++ {
		t, err := s.GetTableByTableIndex(i)
		if err != nil {
			t = nil
		}
		out = append(out, t)
	}
	return
}

var fileNames = []string{"a.got", "b.got", "c.got"}

// save writes documents to a file.
func (w *textWorld) save(docs []*Doc) {
	c := w.c
	name := pick(c, fileNames)
	path := w.disk.path(name)
	f := &savedFile{tables: models(docs)}
	f.asTable = len(docs) == 1 && c.N(2) == 0
	before := ""
	for _, m := range f.tables {
		before += m.canon()
	}
	var s *gt.TableSet
	var text string
	var err error
	p, st := Try(func() {
		if f.asTable {
			text = docs[0].t.String()
		} else {
			f.setName = pick(c, []string{"", "Set_1", "x"})
			s = w.makeSet(docs, f.setName)
			text = s.String()
		}
	})
	if p != nil {
		c.Fail("panic while printing "+panicSite(st), "printing panicked: %v\n%s", p, trimStack(st))
	}
	w.disk.planWrite(w.hard && c.Chance(1, 2), len(text))
	mode := os.FileMode(pick(c, []int{0, 0o644, 0o600, 0o644, 0o600, 0o640, 0o444, 0o400, 0o604}))
	_, statErr := os.Stat(path)
	fresh := os.IsNotExist(statErr)
	p, st = Try(func() {
		if f.asTable {
			err = docs[0].t.WriteFile(path, mode)
		} else {
			err = s.WriteFile(path, mode)
		}
	})
	fired, kind := w.disk.fired, w.disk.kind
	w.disk.calm()
	c.Ops++
	c.Ev("save %d tables (%d bytes) to %s, fault %q fired=%t -> %s", len(docs), len(text), name, kind, fired, errText(err))
	what := "Table.WriteFile"
	if !f.asTable {
		what = "TableSet.WriteFile"
	}
	if p != nil {
		c.Fail("panic in "+what, "%s panicked: %v\n%s", what, p, trimStack(st))
	}
	after := ""
	for _, d := range docs {
		a, err := look(d.t)
		if err != nil {
			c.Fail("table unreadable after "+what, "%v", err)
		}
		after += a.canon()
	}
	if before != after {
		c.Fail("table changed by "+what, "%s", firstDiff(before, after))
	}
	if fired && err == nil {
		b, _ := w.disk.raw(path)
		c.Fail("storage error not reported by "+what+": "+kind, "%s met a storage error (%s) but reported success; the file holds %d of %d bytes", what, kind, len(b), len(text))
	}
	if !fired && err != nil {
		c.Fail("save failed without a storage error: "+what, "%s: %v, although the disk did nothing wrong", what, err)
	}
	if fi, serr := os.Stat(path); fresh && serr == nil && err != nil && mode&0o200 == 0 && mode != 0 {
		os.Chmod(path, 0o600)
	} else if err == nil && fresh && serr == nil {
		// A new file can be used by its owner, and by others as far as the caller said.
		got, want := fi.Mode().Perm(), mode
		if mode == 0 {
			got, want = got&0o600, 0o600
		}
		if got != want {
			c.Fail("permissions of a file written by "+what, "%s made the file with permissions %o, asked for %o", what, fi.Mode().Perm(), mode)
		}
		if mode&0o200 == 0 { // it is not the permissions that a later save is to fail for
			if err := os.Chmod(path, 0o600); err != nil {
				c.Abandon("cannot change the permissions of " + name)
			}
		}
	}
	if err != nil {
		f.unsure = true
	} else {
		b, rerr := w.disk.raw(path)
		if rerr != nil {
			c.Fail("no file after successful "+what, "%v", rerr)
		}
		if string(b) != text {
			c.Fail("file incomplete after successful "+what, "the file holds %d bytes, the text has %d: %s", len(b), len(text), firstDiff(text, string(b)))
		}
	}
	w.files[name] = f
}

var coldEvery = 400

// restart: a client loses its memory and loads a file.
func (w *textWorld) restart(ci int) {
	c := w.c
	name := pick(c, fileNames)
	path := w.disk.path(name)
	f := w.files[name]
	if f != nil && f.unsure {
		return
	}
	odd := "" // something else in the place of the file
	if f == nil {
		odd = "no such file"
		if c.N(3) == 0 {
			os.Mkdir(path, 0o755)
			odd = "directory"
		}
	}
	w.disk.planRead(w.hard && c.Chance(1, 2) && f != nil)
	var got []*gt.Table
	var gotName, how string
	var err error
	var p interface{}
	var st string
	want := []*Abs{{Name: "T"}}
	setName := ""
	if f != nil {
		want, setName = f.tables, f.setName
	}
	nilOnErr := true
	p, st = Try(func() {
		switch c.N(3) {
		case 0:
			if len(want) == 1 {
				how = "NewTableFromFile"
				var t *gt.Table
				t, err = gt.NewTableFromFile(path)
				nilOnErr = t == nil
				got, gotName = []*gt.Table{t}, setName
				return
			}
			fallthrough
		case 1:
			if len(want) == 0 {
				break
			}
			how = "NewTableFromFileByTableName"
			for _, a := range want {
				var t *gt.Table
				if t, err = gt.NewTableFromFileByTableName(path, a.Name); err != nil {
					nilOnErr = t == nil
					return
				}
				got = append(got, t)
			}
			gotName = setName
		}
		if how == "" {
			how = "NewTableSetFromFile"
			var s *gt.TableSet
			if s, err = gt.NewTableSetFromFile(path); err != nil {
				nilOnErr = s == nil
				return
			}
			got, gotName = tablesOf(s), s.Name()
			if s.FileName() == "" {
				err = fmt.Errorf("no file name")
			}
		}
	})
	fired, kind := w.disk.fired, w.disk.kind
	w.disk.calm()
	if odd == "directory" {
		os.Remove(path)
	}
	c.Ops++
	c.Fault("client restarts with an empty memory")
	c.Probe(how)
	c.Ev("client %d restarts: %s(%s) %s fault %q fired=%t -> %s", ci, how, name, odd, kind, fired, errText(err))
	if p != nil {
		c.Fail("panic in "+how, "%s panicked: %v\n%s", how, p, trimStack(st))
	}
	if fired || odd != "" {
		why := kind
		if odd != "" {
			why = odd
		}
		if err == nil {
			c.Fail("storage error not reported by "+how+": "+why, "%s met a storage error (%s) but reported success", how, why)
		}
		if !nilOnErr {
			c.Fail("table returned along with an error by "+how, "%s", why)
		}
		return
	}
	if err != nil {
		b, _ := w.disk.raw(path)
		c.Fail("load failed without a storage error: "+how, "%s: %v\ntext:\n%s", how, err, b)
	}
	if gotName != setName {
		c.Fail(how+": table set name lost", "%s: set name %q became %q", how, setName, gotName)
	}
	ms := w.same("WriteFile > "+how, want, got)
	if c.N(5) == 4 {
		onlyOne(c, "NewTableFromFile", want, name, func() (*gt.Table, error) { return gt.NewTableFromFile(path) },
			func(n string) (*gt.Table, error) { return gt.NewTableFromFileByTableName(path, n) }, nil)
	}
	// Everything not saved is gone.
	var docs []*Doc
	for i := range got {
		docs = append(docs, &Doc{got[i], ms[i]})
	}
	if len(docs) > 0 {
		w.clients[ci] = docs
	}
	if c.Chance(1, coldEvery) {
		w.coldLoad(path, want)
	}
}

// coldLoad has a process of its own read the file.
func (w *textWorld) coldLoad(path string, want []*Abs) {
	self, err := os.Executable()
	if err != nil {
		return
	}
	w.c.Probe("file read by a separate process")
	out, err := exec.Command(self, "load", path).CombinedOutput()
	exp := ""
	for _, a := range want {
		exp += storable(a).contents() + "\n"
	}
	if err != nil || string(out) != exp {
		w.c.Fail("a fresh process loads something else", "%v: %s", err, firstDiff(exp, string(out)))
	}
}

func loadMain(path string) {
	s, err := gt.NewTableSetFromFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, t := range tablesOf(s) {
		a, err := look(t)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Println(a.contents())
	}
}

func runText(c *Ctx, id string, hard bool) {
	w := &textWorld{W: *newW(c, id), hard: hard, files: map[string]*savedFile{}}
	w.types = textFree(w.types)
	w.o.nest = 0
	w.ops, w.wts = opMix(c, "2")
	w.disk = newDisk(c)
	for i := 0; i < 1+c.N(2); i++ {
		w.clients = append(w.clients, w.newDocs(3))
	}
	c.Plan(6, 40)
	saved := 0
	for c.Step() {
		ci := c.N(len(w.clients))
		cl := w.clients[ci]
		switch c.N(10) {
		case 0, 1:
			docs := w.chosen(cl)
			if c.N(16) == 15 {
				docs = nil
			}
			w.mail(docs)
			saved++
		case 2, 3:
			docs := w.chosen(cl)
			if c.N(16) == 15 { // a set without tables
				docs = nil
			}
			w.save(docs)
			saved++
		case 4, 5:
			w.restart(ci)
		case 6:
			d := cl[c.N(len(cl))]
			on := c.N(2) == 0
			if d.t.SetStructShape(on) != nil {
				c.Abandon("SetStructShape")
			}
			d.m.Struct = on
			if on && len(d.m.Rows) > 1 && c.N(2) == 0 {
				if d.t.DeleteRows(1, len(d.m.Rows)-1) != nil {
					c.Abandon("DeleteRows")
				}
				d.m.Rows = d.m.Rows[:1]
			}
			c.Ev("client %d [%s]: struct shape %t", ci, d.m.Name, on)
		case 7:
			if len(cl) < 4 {
				w.clients[ci] = append(cl, w.newDoc())
			}
		default:
			w.step(w.ops, w.wts)
		}
	}
	c.Nontriv = saved >= 2
}

func init() {
	real := "gotables printer, parser, file reading and writing (all unmodified), os, Go runtime, real files in a scratch directory"
	stub := "system calls on those files answered or altered by the simulator; client interleaving, map order and random numbers decided by it"
	register(&PropDef{ID: "P05", Mode: "plain", Run: func(c *Ctx) { runText(c, "P05", false) }, Quick: 50000, Thorough: 2000000, Batch: 250,
		Rule: "each run: 1-2 clients with 1-3 tables, 6-40 seeded steps of edits, mailing tables as text, saving to files and restarting from them (short and interrupted reads and writes allowed); every loaded table compared cell by cell with what was saved, some files read by a separate process; non-trivial: at least 2 saves; distinct by hash of event log and states",
		Real: real, Stub: stub})
	register(&PropDef{ID: "P06", Mode: "plain", Run: func(c *Ctx) { runText(c, "P06", true) }, Quick: 50000, Thorough: 2000000, Batch: 250,
		Rule: "the world of P05, with half of the saves and loads hit by one storage error (open, n-th write, full disk after n bytes, write that takes nothing, close, sync, rename, n-th read, missing file, directory); non-trivial: at least 2 saves; distinct by hash of event log and states",
		Real: real, Stub: stub})
	register(&PropDef{ID: "P07", Mode: "plain", Run: runP07, Quick: 50000, Thorough: 3000000, Batch: 400,
		Rule: "each run: 1-4 tables written as text with seeded comments and blank lines, then 6-30 seeded damages of it: crash of a save at a seeded byte, lost or doubled blocks, flipped, inserted and deleted bytes, splices with another text, one line replaced by an invalid one, cuts between rows; non-trivial: at least 4 damages; distinct by hash of event log and states",
		Real: real, Stub: stub})
}

// ---------------------------------------------------------------- P07: damaged text

type textLine struct {
	kind  string // "set", "name", "cols", "types", "row", "field", "blank", "comment"
	table int
	n     int // row or column
	text  string
}

// outline pairs the lines of a text with what they are.
func outline(setName string, tables []*Abs, text string) []textLine {
	var want []textLine
	if setName != "" {
		want = append(want, textLine{kind: "set"}, textLine{kind: "blank"})
	}
	for i, a := range tables {
		if i > 0 {
			want = append(want, textLine{kind: "blank"})
		}
		want = append(want, textLine{kind: "name", table: i})
		switch {
		case a.Struct && len(a.Rows) <= 1:
			for k := range a.Cols {
				want = append(want, textLine{kind: "field", table: i, n: k})
			}
		case len(a.Cols) > 0:
			want = append(want, textLine{kind: "cols", table: i}, textLine{kind: "types", table: i})
			for r := range a.Rows {
				want = append(want, textLine{kind: "row", table: i, n: r})
			}
		}
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(lines) != len(want) {
		return nil
	}
	for i := range want {
		want[i].text = lines[i]
		if (want[i].kind == "blank") != (strings.TrimSpace(lines[i]) == "") {
			return nil
		}
	}
	return want
}

func joinLines(ls []textLine) string {
	var b strings.Builder
	for _, l := range ls {
		b.WriteString(l.text)
		b.WriteByte('\n')
	}
	return b.String()
}

// plainToken is a valid token for a cell of type typ, without blanks.
func plainToken(typ string) string {
	switch typ {
	case "string":
		return `"s"`
	case "bool":
		return "true"
	case "rune":
		return "'r'"
	case "[]byte", "[]uint8":
		return "[1]"
	case "time.Time":
		return "2020-01-02T03:04:05Z"
	case "*Table":
		return "[]"
	}
	return "7"
}

// badToken cannot be a cell of type typ, nor anything before one.
func badToken(c *Ctx, typ string) string {
	common := []string{"?", "@@", "%", "?" + plainToken(typ), "<" + plainToken(typ), ")"}
	var more []string
	switch typ {
	case "string":
		more = []string{`abc`, `"unclosed`, `'s'`, `"bad\q"`, "12", "true", `x"s"`}
	case "bool":
		more = []string{"True", "1", "yes", "truefalse", `"true"`, "TRUE", "tru", "xtrue"}
	case "rune":
		more = []string{"''", "'ab'", "a", `"a"`, "'a", "97", "x'a'", "'\\q'"}
	case "[]byte", "[]uint8":
		more = []string{"[256]", "[-1]", "[1 300]", "(1)", "[1", "1", "[x]", "[1,2]", "x[1]"}
	case "time.Time":
		more = []string{"2020-13-01T00:00:00Z", "2020-01-02", "x2020-01-02T03:04:05Z", "now", "2020-02-30T00:00:00Z", `"2020-01-02T03:04:05Z"`, "20-01-02T03:04:05Z", "2020-01-02T25:04:05Z", "12020-01-02T03:04:05Z"}
	case "*Table":
		more = []string{"[1x]", "x", "[a", "[int]", "nil", "x[]"}
	case "float32", "float64":
		more = []string{"x", "nan", "NAN", "xNaN", `"1"`, "true", "1e999", "--1", "e5", "infinite", "."}
	case "uint", "uint8", "uint16", "uint32", "uint64", "byte":
		more = []string{"-1", "x", "18446744073709551616", "1.5", `"1"`, "0x", "08", "99999999999999999999", "true", "0b2"}
		switch typ {
		case "byte", "uint8":
			more = append(more, "256", "0x100")
		case "uint16":
			more = append(more, "65536")
		case "uint32":
			more = append(more, "4294967296")
		}
	default:
		more = []string{"x", "9223372036854775808", "-9223372036854775809", "1.5", `"1"`, "--1", "true", "NaN", "0x", "09"}
		switch typ {
		case "int8":
			more = append(more, "128", "-129")
		case "int16":
			more = append(more, "32768", "-32769")
		case "int32":
			more = append(more, "2147483648", "-2147483649")
		}
	}
	if c.N(2) == 0 {
		return pick(c, common)
	}
	return pick(c, more)
}

// invalidLine makes a line that cannot stand in the place of ls[i]. "" when there is none.
func invalidLine(c *Ctx, ls []textLine, i int, tables []*Abs) string {
	l := ls[i]
	a := tables[l.table]
	switch l.kind {
	case "set":
		return pick(c, []string{"[[1x]]", "[[a b]]", "[[", "[[x]", "set", "[[x]] y", "[[x]]]", "{x}"})
	case "name":
		bad := []string{"[1bad]", "[a b]", "name", "[int]", "[]", "[x", "x]", "[x] y", "{x}", "[a-b]", "[a]b", "[*Table]", "[[x", "? [x]"}
		if l.table > 0 {
			bad = append(bad, "["+tables[c.N(l.table)].Name+"]", "["+tables[c.N(l.table)].Name+"]")
		}
		return pick(c, bad)
	case "cols":
		names := append([]string{}, a.Cols...)
		k := c.N(len(names))
		switch c.N(4) {
		case 0:
			if len(names) < 2 {
				return "9x"
			}
			names[k] = names[(k+1)%len(names)] // duplicate
		case 1:
			if len(names) == 2 && k == 1 { // name and type: a struct
				k = 0
			}
			names[k] = pick(c, []string{"int", "string", "float64", "time.Time", "*Table", "[]byte"})
		default:
			names[k] = pick(c, []string{"9x", "a-b", "?", "x.y", "=", "a,", "1", "x?", "[a]", `"a"`})
			if k == 2 && names[k] == "=" {
				names[k] = "=="
			}
		}
		return strings.Join(names, " ")
	case "types":
		types := append([]string{}, a.Types...)
		k := c.N(len(types))
		switch c.N(4) {
		case 0:
			types = append(types, "int")
		case 1:
			if len(types) < 2 {
				return "integer"
			}
			types = append(types[:k], types[k+1:]...)
		case 2:
			if c.N(3) == 0 {
				return " " // no types at all
			}
			fallthrough
		default:
			types[k] = pick(c, []string{"integer", "Int", "[]int", "table", "?", "[]string", "complex128", "int,", "float", "intt"})
		}
		return strings.Join(types, " ")
	case "row":
		var toks []string
		for _, t := range a.Types {
			toks = append(toks, plainToken(t))
		}
		k := c.N(len(toks))
		switch c.N(5) {
		case 0:
			toks = append(toks, pick(c, []string{"7", `"more"`, "true", "?", "x", "[]", "#", "# comment"}))
		case 1:
			if len(toks) < 2 {
				return "?"
			}
			toks = toks[:len(toks)-1]
		case 2:
			toks[k] = plainToken(a.Types[k]) + "?"
		default:
			toks[k] = badToken(c, a.Types[k])
		}
		return strings.Join(toks, " ")
	case "field":
		n, t := a.Cols[l.n], a.Types[l.n]
		if len(a.Rows) == 0 {
			bad := []string{"9x " + t, n + " " + t + " =", "? ?", n + "? " + t, "= " + n + " " + t}
			if l.n > 0 { // the first line could also be column names
				bad = append(bad, n+" integer", a.Cols[c.N(l.n)]+" "+t, n, n+" "+t+" = "+plainToken(t), n+" "+t+" x")
			}
			return pick(c, bad)
		}
		v := " = " + plainToken(t)
		bad := []string{"9x " + t + v, n + " integer" + v, n + " " + t + " =", n + "? " + t + v, n + " " + t + v + " ?", n + " " + t + v + "?",
			n + " " + t + " = " + badToken(c, t), n + " " + t + " = " + badToken(c, t), n + " " + t + " = " + badToken(c, t)}
		if l.n > 0 {
			bad = append(bad, a.Cols[c.N(l.n)]+" "+t+v, n+" "+t, n, n+" = "+plainToken(t), n+" "+t+" ?"+v, n+" "+t+" "+plainToken(t)+" ?")
		}
		return pick(c, bad)
	}
	return ""
}

var lineRef = regexp.MustCompile(`:(\d+):`)

// loadDamaged loads a text by a seeded route and tells what came of it.
func (w *textWorld) loadDamaged(text string) (s []*gt.Table, how string, err error, p interface{}, st string) {
	c := w.c
	route := c.N(5)
	p, st = Try(func() {
		switch route {
		case 1:
			how = "NewTableSetFromFile"
			path := w.disk.path("damaged.got")
			w.disk.rawWrite(path, []byte(text))
			w.disk.planRead(false)
			var set *gt.TableSet
			if set, err = gt.NewTableSetFromFile(path); err == nil {
				s = tablesOf(set)
			}
		case 2:
			how = "NewTableFromString"
			var t *gt.Table
			if c.N(3) == 2 {
				t, err = mustMake(text)
			} else {
				t, err = gt.NewTableFromString(text)
			}
			if err == nil {
				s = []*gt.Table{t}
			}
		case 3:
			how = "NewTableFromStringByTableIndex"
			var t *gt.Table
			if t, err = gt.NewTableFromStringByTableIndex(text, 0); err == nil {
				s = []*gt.Table{t}
			}
		default:
			how = "NewTableSetFromString"
			var set *gt.TableSet
			if set, err = gt.NewTableSetFromString(text); err == nil {
				if set == nil {
					err = fmt.Errorf("nil set and nil error")
					return
				}
				s = tablesOf(set)
			}
		}
	})
	return
}

// wellFormed checks what a reader accepted.
func wellFormed(c *Ctx, how string, s []*gt.Table, text string) {
	seen := map[string]bool{}
	for i, t := range s {
		if t == nil {
			c.Fail(how+": nil table from damaged text", "table %d is nil, text:\n%s", i, text)
		}
		if ok, err := t.IsValidTable(); !ok || err != nil {
			c.Fail(how+": invalid table from damaged text", "IsValidTable: %v %v, text:\n%s", ok, err, text)
		}
		a, err := look(t)
		if err != nil {
			c.Fail(how+": unreadable table from damaged text", "%v, text:\n%s", err, text)
		}
		if err := a.typesOK(); err != nil {
			c.Fail(how+": cell of the wrong type from damaged text", "%v, text:\n%s", err, text)
		}
		if seen[a.Name] {
			c.Fail(how+": two tables of one name from damaged text", "[%s], text:\n%s", a.Name, text)
		}
		seen[a.Name] = true
		cols := map[string]bool{}
		for _, n := range a.Cols {
			if cols[n] {
				c.Fail(how+": two columns of one name from damaged text", "[%s] %s, text:\n%s", a.Name, n, text)
			}
			cols[n] = true
			if ok, _ := gt.IsValidColName(n); !ok {
				c.Fail(how+": invalid column name from damaged text", "%q, text:\n%s", n, text)
			}
		}
		if p, st := Try(func() { _ = t.String(); _ = t.StringUnpadded() }); p != nil {
			c.Fail(how+": table from damaged text cannot be printed", "%v, text:\n%s\n%s", p, text, trimStack(st))
		}
	}
}

func runP07(c *Ctx) {
	w := &textWorld{W: *newW(c, "P07")}
	w.o.nest = 1
	w.disk = newDisk(c)
	mk := func() (setName string, tables []*Abs, ls []textLine, text string) {
		var names []string
		setName = pick(c, []string{"", "Set_1", "x"})
		s, _ := gt.NewTableSet(setName)
		nt, cols, rows := 1+c.N(3), w.maxCols, w.startRows
		if c.Chance(1, 30) { // a crowd of little tables
			nt, cols, rows = 10+c.N(12), min(cols, 3), func() int { return 2 }
			c.Probe("many tables")
		}
		for i := 0; i < nt; i++ {
			o := w.o
			a := genAbs(c, newName(c, names), o, cols, rows(), w.types)
			for k := range a.Types {
				for r := range a.Rows {
					if x, ok := a.Rows[r][k].(*Abs); ok && !x.Nil { // text keeps only the name
						a.Rows[r][k] = &Abs{Name: x.Name}
					}
				}
			}
			a.Struct = c.N(3) == 0
			names = append(names, a.Name)
			tables = append(tables, a)
			if s.AppendTable(mustBuild(c, a)) != nil {
				c.Abandon("AppendTable")
			}
		}
		if p, _ := Try(func() { _, text = textOf(c, s, nil) }); p != nil {
			c.Abandon("printing panicked")
		}
		ls = outline(setName, tables, text)
		if ls == nil && setName != "" {
			setName = ""
			ls = outline(setName, tables, text)
		}
		if ls == nil {
			c.Abandon("text has an unexpected outline")
		}
		return
	}
	setName, tables, ls, text := mk()
	_, _, _, text2 := mk()
	// What a person would add: comments anywhere, blank lines between tables.
	noisy := func(ls []textLine) (out []textLine) {
		for i, l := range ls {
			for c.Chance(1, 6) {
				out = append(out, textLine{kind: "comment", text: pick(c, []string{"# comment", "#", "   # [x]", "#1:2:3", "\t# a b", "###", "# heading #", "# a \\", "#\"", "# [[x]]", "#int", "# = #", "#" + strings.Repeat("=", 40+c.N(9000))})})
			}
			if l.kind == "name" || l.kind == "set" || (l.kind == "blank" && i > 0) {
				for c.Chance(1, 4) {
					out = append(out, textLine{kind: "blank", text: pick(c, []string{"", "  ", "\t"})})
				}
			}
			if c.Chance(1, 8) && l.kind != "blank" {
				l.text = pick(c, []string{" ", "\t", "   "}) + l.text
			}
			if c.Chance(1, 8) {
				l.text += pick(c, []string{" ", "\r", " \t"})
			}
			out = append(out, l)
		}
		return
	}
	same := func(sig, how string, want []*Abs, got []*gt.Table, text string) {
		if len(want) != len(got) {
			c.Fail(sig, "%s: expected %d tables, found %d, text:\n%s", how, len(want), len(got), text)
		}
		for i := range want {
			a, err := look(got[i])
			if err != nil {
				c.Fail(sig, "%s: %v", how, err)
			}
			if d := diffContents(want[i], a); d != "" {
				c.Fail(sig, "%s: %s, text:\n%s", how, d, text)
			}
		}
	}
	one := func(how string) bool { // routes that load one table only
		return how == "NewTableFromString" || how == "NewTableFromStringByTableIndex"
	}
	c.Plan(6, 30)
	damages := 0
	for c.Step() {
		damages++
		switch c.N(6) {
		case 0: // one invalid line
			nl := noisy(ls)
			var at []int
			for i, l := range nl {
				if l.kind != "blank" && l.kind != "comment" {
					at = append(at, i)
				}
			}
			i := pick(c, at)
			bad := invalidLine(c, nl, i, tables)
			if bad == "" {
				continue
			}
			mod := append([]textLine{}, nl...)
			kind := mod[i].kind
			mod[i].text = bad
			if c.N(3) == 0 { // indented
				mod[i].text = "  " + bad
			}
			t := joinLines(mod)
			if c.N(4) == 0 {
				t = strings.TrimSuffix(t, "\n")
			}
			c.Fault("a line replaced by an invalid one: " + kind)
			got, how, err, p, st := w.loadDamaged(t)
			c.Ev("line %d (%s) replaced by %q: %s -> %s", i+1, kind, bad, how, errText(err))
			if p != nil {
				c.Fail(how+": panic on an invalid "+kind+" line", "line %d replaced by %q: %v\ntext:\n%s\n%s", i+1, bad, p, t, trimStack(st))
			}
			if err == nil {
				c.Fail(how+": invalid "+kind+" line accepted", "line %d replaced by %q accepted as %v, text:\n%s", i+1, bad, observeAll(got), t)
			}
			m := lineRef.FindStringSubmatch(err.Error())
			if m == nil {
				c.Fail(how+": error without a line number for an invalid "+kind+" line", "line %d replaced by %q: %v\ntext:\n%s", i+1, bad, err, t)
			}
			if n, _ := strconv.Atoi(m[1]); n != i+1 {
				c.Fail(how+": wrong line number for an invalid "+kind+" line", "line %d replaced by %q: %v\ntext:\n%s", i+1, bad, err, t)
			}
		case 1: // cut between rows
			nl := noisy(ls)
			var at []int
			for i, l := range nl {
				if l.kind == "row" || l.kind == "types" {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				continue
			}
			i := pick(c, at)
			t := joinLines(nl[:i+1])
			if c.N(3) == 0 {
				t = strings.TrimSuffix(t, "\n")
			}
			c.Fault("text cut between rows")
			got, how, err, p, st := w.loadDamaged(t)
			c.Ev("cut after line %d: %s -> %s", i+1, how, errText(err))
			var want []*Abs
			for _, a := range tables[:nl[i].table+1] {
				want = append(want, a.clone())
			}
			last := want[len(want)-1]
			if nl[i].kind == "types" {
				last.Rows = nil
			} else {
				last.Rows = last.Rows[:nl[i].n+1]
			}
			if p != nil {
				c.Fail(how+": panic on text cut between rows", "%v\ntext:\n%s\n%s", p, t, trimStack(st))
			}
			if how == "NewTableFromString" && len(want) != 1 {
				if err == nil {
					c.Fail(how+": several tables accepted as one", "text:\n%s", t)
				}
				continue
			}
			if one(how) {
				want = want[:1]
			}
			if err != nil {
				c.Fail(how+": text cut between rows refused", "%v\ntext:\n%s", err, t)
			}
			same(how+": text cut between rows loads as something else", how, want, got, t)
		case 2: // undamaged, with comments and blank lines
			t := joinLines(noisy(ls))
			got, how, err, p, st := w.loadDamaged(t)
			c.Ev("undamaged: %s -> %s", how, errText(err))
			if p != nil {
				c.Fail(how+": panic on undamaged text", "%v\ntext:\n%s\n%s", p, t, trimStack(st))
			}
			if how == "NewTableFromString" && len(tables) != 1 {
				continue
			}
			want := tables
			if one(how) {
				want = want[:1]
			}
			if err != nil {
				c.Fail(how+": undamaged text refused", "%v\ntext:\n%s", err, t)
			}
			same(how+": comments or blank lines change what is loaded", how, want, got, t)
		case 3: // crash during a save, over an older file or none
			path := w.disk.path("crash.got")
			if c.N(2) == 0 {
				w.disk.rawWrite(path, []byte(text2))
			} else {
				os.Remove(path)
			}
			s, _ := gt.NewTableSet(setName)
			for _, a := range tables {
				if s.AppendTable(mustBuild(c, a)) != nil {
					c.Abandon("AppendTable")
				}
			}
			w.disk.planWrite(false, len(text))
			w.disk.kind, w.disk.room = "crash", c.N(len(text)+1)
			if p, st := Try(func() { _ = s.WriteFile(path, 0) }); p != nil {
				c.Fail("panic in a failing save", "%v\n%s", p, trimStack(st))
			}
			w.disk.calm()
			b, _ := w.disk.raw(path)
			c.Ev("crash during save: %d bytes of %d on disk", len(b), len(text))
			w.tolerate(string(b))
		default: // bytes
			t := text
			if c.N(2) == 0 {
				t = joinLines(noisy(ls))
			}
			for k := 0; k < 1+c.N(3); k++ {
				t = w.damageBytes(t, text2)
			}
			w.tolerate(t)
		}
		c.State(hashStr(uint64(damages), text))
	}
	c.Nontriv = damages >= 4
}

func observeAll(ts []*gt.Table) string {
	s := ""
	for _, t := range ts {
		a, err := look(t)
		if err != nil {
			s += err.Error()
			continue
		}
		s += a.contents() + "\n"
	}
	return s
}

// tolerate: whatever the text, an error or well-formed tables.
func (w *textWorld) tolerate(t string) {
	got, how, err, p, st := w.loadDamaged(t)
	w.c.Ev("damaged text of %d bytes: %s -> %s", len(t), how, errText(err))
	if p != nil {
		w.c.Fail(how+": panic on damaged text in "+panicSite(st), "%v\ntext:\n%s\n%s", p, t, trimStack(st))
	}
	if err == nil {
		wellFormed(w.c, how, got, t)
		w.c.Probe("damaged text accepted")
	} else {
		w.c.Probe("damaged text refused")
	}
}

var spliceStock = []string{"[", "]", "[[", "]]", "[]", "\"", "'", "\\", "\n", "\r\n", "\n\n", " ", "\t", "#", "=", " = ", "0", "-", "0x", "0b", "1e", ".", "NaN", "'\\", "[x]\n", "int", "\x00", "\xff", "\u2028", "\u0085", "'''", "''", "[1 2", "99999999999999999999", "a int\n", "[T]\na b\n", "a\nint\n", "*Table"}

func (w *textWorld) damageBytes(t, other string) string {
	c := w.c
	if len(t) == 0 {
		return pick(c, spliceStock)
	}
	p := c.N(len(t) + 1)
	q := p + c.N(len(t)-p+1)
	if c.N(2) == 0 {
		q = min(len(t), p+1+c.N(4))
	}
	kind := ""
	defer func() { c.Fault("text damage: " + kind) }()
	switch c.N(9) {
	case 0:
		kind = "truncated"
		return t[:p]
	case 1:
		kind = "flipped byte"
		b := []byte(t)
		i := c.N(len(b))
		b[i] ^= 1 << uint(c.N(8))
		return string(b)
	case 2:
		kind = "lost bytes"
		return t[:p] + t[q:]
	case 3:
		kind = "zeroed block"
		return t[:p] + strings.Repeat("\x00", q-p) + t[q:]
	case 4:
		kind = "doubled block"
		return t[:q] + t[p:]
	case 5:
		kind = "spliced with an older file"
		i := c.N(len(other) + 1)
		return t[:p] + other[i:]
	case 6:
		kind = "inserted bytes"
		return t[:p] + pick(c, spliceStock) + t[p:]
	case 7:
		kind = "lines swapped"
		l := strings.Split(t, "\n")
		i, j := c.N(len(l)), c.N(len(l))
		l[i], l[j] = l[j], l[i]
		return strings.Join(l, "\n")
	default:
		kind = "overwritten bytes"
		s := pick(c, spliceStock)
		return t[:p] + s + t[min(len(t), p+len(s)):]
	}
}
