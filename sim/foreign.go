package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P23: text written by other hands

// scribe writes the text of tables as another program, or a person, might: any white space between
// columns, comments, blank lines, either line end, and any spelling of a value.
type scribe struct {
	c     *Ctx
	eol   string
	plain bool // no unusual spellings of values
	odd   map[string]int
}

func (s *scribe) did(what string) { s.odd[what]++; s.c.Probe("text: " + what) }

func (s *scribe) gap() string {
	switch s.c.N(6) {
	case 0:
		s.did("tab between columns")
		return "\t"
	case 1:
		s.did("wide gap between columns")
		return strings.Repeat(" ", 2+s.c.N(9))
	case 2:
		return " \t "
	}
	return " "
}

// end finishes a line: white space at its end, and perhaps comments after it.
func (s *scribe) end(b *strings.Builder) {
	c := s.c
	if c.N(6) == 0 {
		b.WriteString(pick(c, []string{" ", "\t", "    ", " \t "}))
	}
	b.WriteString(s.eol)
	for c.N(9) == 0 {
		s.did("comment")
		b.WriteString(pick(c, []string{"", " ", "\t"}) + pick(c, []string{"#", "# comment", "#[x]", "# a int = 1", "##", "#\"", "# " + strings.Repeat("long ", 40)}) + s.eol)
	}
}

func (s *scribe) indent() string {
	if s.c.N(6) == 0 {
		s.did("indented line")
		return pick(s.c, []string{" ", "\t", "     "})
	}
	return ""
}

func (s *scribe) blank(b *strings.Builder, atLeast int) {
	n := atLeast
	for s.c.N(4) == 0 {
		n++
	}
	for i := 0; i < n; i++ {
		b.WriteString(pick(s.c, []string{"", "", "", " ", "\t"}))
		s.end(b)
	}
}

func (s *scribe) uint(x uint64) string {
	if s.plain {
		return strconv.FormatUint(x, 10)
	}
	k := s.c.N(10)
	if k > 0 && k < 6 {
		s.did("integer literal")
	}
	digits := func(base int) string {
		d := strconv.FormatUint(x, base)
		if s.c.N(4) == 0 {
			d = strings.Repeat("0", 1+s.c.N(3)) + d
		}
		if s.c.N(2) == 0 {
			d = strings.ToUpper(d)
		}
		return d
	}
	switch k {
	case 1:
		return pick(s.c, []string{"0b", "0B"}) + digits(2)
	case 2:
		return pick(s.c, []string{"0o", "0O"}) + digits(8)
	case 3:
		return pick(s.c, []string{"0x", "0X"}) + digits(16)
	case 4:
		return "0" + strconv.FormatUint(x, 8)
	case 5:
		return "+" + strconv.FormatUint(x, 10)
	}
	return strconv.FormatUint(x, 10)
}

func (s *scribe) int(x int64) string {
	if x < 0 {
		return strconv.FormatInt(x, 10)
	}
	return s.uint(uint64(x))
}

func (s *scribe) float(x float64, bits int) string {
	c := s.c
	if math.IsNaN(x) {
		return "NaN"
	}
	if math.IsInf(x, 1) {
		return pick(c, []string{"Inf", "+Inf"})
	}
	if math.IsInf(x, -1) {
		return "-Inf"
	}
	if s.plain {
		return strconv.FormatFloat(x, 'f', -1, bits)
	}
	k := c.N(8)
	if k > 0 && k < 7 {
		s.did("float literal")
	}
	f := ""
	switch k {
	case 1:
		f = strconv.FormatFloat(x, 'e', -1, bits)
	case 2:
		f = strconv.FormatFloat(x, 'E', -1, bits)
	case 3:
		f = strconv.FormatFloat(x, 'e', 30, 64)
	case 4: // .5 5. 0.500
		f = strconv.FormatFloat(x, 'f', -1, bits)
		switch {
		case strings.Contains(f, "."):
			f += strings.Repeat("0", c.N(4))
			neg := strings.HasPrefix(f, "-")
			if g := strings.TrimPrefix(f, "-"); strings.HasPrefix(g, "0.") && c.N(2) == 0 {
				f = g[1:]
				if neg {
					f = "-" + f
				}
			}
		default:
			f += pick(c, []string{".", ".0", ".000"})
		}
	case 5:
		f = strconv.FormatFloat(x, 'g', -1, bits)
	case 6:
		f = strconv.FormatFloat(x, 'f', -1, bits)
		if !strings.HasPrefix(f, "-") {
			f = "+" + f
		} else {
			f = "-00" + f[1:]
		}
	default:
		f = strconv.FormatFloat(x, 'f', -1, bits)
	}
	return f
}

func (s *scribe) escape(r rune, one bool) string {
	c := s.c
	switch c.N(4) {
	case 0:
		if r < 0x80 {
			return fmt.Sprintf(`\x%02x`, r)
		}
	case 1:
		if r < 0x80 {
			return fmt.Sprintf(`\%03o`, r)
		}
	case 2:
		if r > 0xffff {
			return fmt.Sprintf(`\U%08X`, r)
		}
	}
	if r > 0xffff {
		return fmt.Sprintf(`\U%08x`, r)
	}
	return fmt.Sprintf(`\u%04x`, r)
}

func (s *scribe) string(x string) string {
	switch {
	case s.plain:
		return strconv.Quote(x)
	case s.c.N(3) == 0:
		return strconv.QuoteToASCII(x)
	case s.c.N(2) == 0:
		return strconv.Quote(x)
	}
	s.did("string escapes")
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(x); {
		r, n := utf8.DecodeRuneInString(x[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			fmt.Fprintf(&b, `\x%02x`, x[i])
		case r == '"' || r == '\\':
			if s.c.N(3) == 0 {
				b.WriteString(s.escape(r, false))
			} else {
				b.WriteByte('\\')
				b.WriteRune(r)
			}
		case r == '\t' && s.c.N(2) == 0:
			b.WriteByte('\t')
		case !unicode.IsPrint(r) || s.c.N(6) == 0:
			b.WriteString(s.escape(r, false))
		default:
			b.WriteRune(r)
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

func (s *scribe) rune(r rune) string {
	if s.plain || s.c.N(2) == 0 {
		return strconv.QuoteRune(r)
	}
	if s.c.N(3) == 0 {
		return strconv.QuoteRuneToASCII(r)
	}
	s.did("rune escape")
	return "'" + s.escape(r, true) + "'"
}

func (s *scribe) time(t time.Time) string {
	f := t.Format(time.RFC3339Nano)
	if s.plain {
		return f
	}
	if s.c.N(2) == 0 {
		s.did("time with all digits")
		f = t.Format("2006-01-02T15:04:05.000000000Z07:00")
	}
	if strings.HasSuffix(f, "Z") && s.c.N(3) == 0 {
		f = f[:len(f)-1] + "+00:00"
	}
	return f
}

func (s *scribe) cell(typ string, v interface{}) string {
	switch x := v.(type) {
	case string:
		return s.string(x)
	case bool:
		return strconv.FormatBool(x)
	case int:
		return s.int(int64(x))
	case int8:
		return s.int(int64(x))
	case int16:
		return s.int(int64(x))
	case int32:
		if typ == "rune" {
			return s.rune(x)
		}
		return s.int(int64(x))
	case int64:
		return s.int(x)
	case uint:
		return s.uint(uint64(x))
	case uint8:
		return s.uint(uint64(x))
	case uint16:
		return s.uint(uint64(x))
	case uint32:
		return s.uint(uint64(x))
	case uint64:
		return s.uint(x)
	case float32:
		return s.float(float64(x), 32)
	case float64:
		return s.float(x, 64)
	case time.Time:
		return s.time(x)
	case []byte:
		var e []string
		for _, b := range x {
			e = append(e, s.uint(uint64(b)))
		}
		return "[" + strings.Join(e, pick(s.c, []string{" ", " ", "\t"})) + "]"
	}
	s.c.Abandon(fmt.Sprintf("no text for %T", v))
	return ""
}

// write writes the tables. A table with columns and at most one row may change its shape: the model
// takes the shape that was written.
func (s *scribe) write(setName string, tables []*Abs) string {
	c := s.c
	s.eol = "\n"
	if c.N(3) == 0 {
		s.eol = "\r\n"
		s.did("CRLF line ends")
	}
	s.plain = c.N(4) == 0
	var b strings.Builder
	if c.N(4) == 0 {
		s.blank(&b, 1)
	}
	if setName != "" {
		b.WriteString(s.indent() + "[[" + setName + "]]")
		s.end(&b)
		s.blank(&b, c.N(2))
	}
	for i, a := range tables {
		b.WriteString(s.indent() + "[" + a.Name + "]")
		s.end(&b)
		if len(a.Cols) > 0 && len(a.Rows) <= 1 && c.N(3) == 0 {
			a.Struct = !a.Struct
		}
		a.Struct = a.Struct && len(a.Cols) > 0 && len(a.Rows) <= 1
		switch {
		case len(a.Cols) == 0:
		case a.Struct:
			for k, n := range a.Cols {
				b.WriteString(s.indent() + n + s.gap() + a.Types[k])
				if len(a.Rows) == 1 {
					b.WriteString(s.gap() + "=" + s.gap() + s.cell(a.Types[k], a.Rows[0][k]))
				}
				s.end(&b)
			}
		default:
			line := func(cells []string) {
				b.WriteString(s.indent())
				for k, x := range cells {
					if k > 0 {
						b.WriteString(s.gap())
					}
					b.WriteString(x)
				}
				s.end(&b)
			}
			line(a.Cols)
			line(a.Types)
			for _, row := range a.Rows {
				var cells []string
				for k, v := range row {
					cells = append(cells, s.cell(a.Types[k], v))
				}
				line(cells)
			}
		}
		if i < len(tables)-1 || c.N(3) == 0 {
			s.blank(&b, 1)
		}
	}
	t := b.String()
	if c.N(4) == 0 {
		s.did("no line end at the end")
		t = strings.TrimSuffix(strings.TrimSuffix(t, "\n"), "\r")
	}
	return t
}

type foreignWorld struct {
	textWorld
}

// exchange has another hand write some documents, and a client read them.
func (w *foreignWorld) exchange(ci int) {
	c := w.c
	docs := w.chosen(w.clients[ci])
	var want []*Abs
	for _, d := range docs {
		m := storable(d.m)
		for _, row := range m.Rows {
			for k, v := range row {
				switch v.(type) {
				case int32, time.Time: // runes and times that text does not store
					if !carries("json", m.Types[k], v) {
						return
					}
				}
			}
		}
		m.Keys = nil
		want = append(want, m)
	}
	setName := pick(c, []string{"", "", "Set_1", "x"})
	sc := &scribe{c: c, odd: map[string]int{}}
	text := sc.write(setName, want)
	c.Fault("text written by another hand")
	var got []*gt.Table
	var gotName, how string
	var err error
	route := c.N(6)
	p, st := Try(func() {
		switch route {
		case 0, 1:
			how = "NewTableSetFromFile"
			path := w.disk.path("foreign.got")
			w.disk.rawWrite(path, []byte(text))
			w.disk.planRead(false)
			var set *gt.TableSet
			if set, err = gt.NewTableSetFromFile(path); err == nil {
				got, gotName = tablesOf(set), set.Name()
			}
		case 2:
			if len(want) == 1 {
				how = "NewTableFromString"
				var t *gt.Table
				t, err = gt.NewTableFromString(text)
				got, gotName = []*gt.Table{t}, setName
				return
			}
			fallthrough
		case 3:
			how = "NewTableFromStringByTableName"
			for _, a := range want {
				var t *gt.Table
				if t, err = gt.NewTableFromStringByTableName(text, a.Name); err != nil {
					return
				}
				got = append(got, t)
			}
			gotName = setName
		default:
			how = "NewTableSetFromString"
			var set *gt.TableSet
			if set, err = gt.NewTableSetFromString(text); err == nil {
				got, gotName = tablesOf(set), set.Name()
			}
		}
	})
	w.disk.calm()
	c.Ops++
	c.Probe(how)
	c.Ev("client %d reads %d tables written by another hand: %d bytes, %s -> %s", ci, len(want), len(text), how, errText(err))
	if p != nil {
		c.Fail(how+": panic on foreign text", "%v\ntext:\n%s\n%s", p, text, trimStack(st))
	}
	if err != nil {
		c.Fail(how+": foreign text refused", "%v\ntext:\n%s", err, text)
	}
	if gotName != setName {
		c.Fail(how+": set name of foreign text lost", "set name %q became %q, text:\n%s", setName, gotName, text)
	}
	if len(got) != len(want) {
		c.Fail(how+": wrong number of tables in foreign text", "%d tables, expecting %d, text:\n%s", len(got), len(want), text)
	}
	var now []*Doc
	for i := range want {
		a, lerr := look(got[i])
		if lerr != nil {
			c.Fail(how+": table from foreign text unreadable", "%v, text:\n%s", lerr, text)
		}
		if d := diffContents(want[i], a); d != "" {
			c.Fail(how+": foreign text read as something else", "%s, text:\n%s", d, text)
		}
		if want[i].Struct != a.Struct {
			c.Fail(how+": foreign text read in another shape", "struct shape %t, text:\n%s", a.Struct, text)
		}
		if terr := a.typesOK(); terr != nil {
			c.Fail(how+": foreign text: cell of a wrong type", "%v, text:\n%s", terr, text)
		}
		if ok, verr := got[i].IsValidTable(); !ok || verr != nil {
			c.Fail(how+": invalid table from foreign text", "%v, text:\n%s", verr, text)
		}
		now = append(now, &Doc{got[i], a})
		c.State(a.shape())
	}
	if c.N(2) == 0 && len(now) > 0 {
		c.Fault("client restarts with an empty memory")
		w.clients[ci] = now
	}
}

func runP23(c *Ctx) {
	w := &foreignWorld{textWorld{W: *newW(c, "P23"), files: map[string]*savedFile{}}}
	w.types = textFree(w.types)
	w.o.nest = 0
	w.ops, w.wts = opMix(c, "2")
	w.disk = newDisk(c)
	for i := 0; i < 1+c.N(2); i++ {
		w.clients = append(w.clients, w.newDocs(3))
	}
	c.Plan(6, 40)
	n := 0
	for c.Step() {
		ci := c.N(len(w.clients))
		cl := w.clients[ci]
		switch c.N(10) {
		case 0, 1, 2, 3:
			w.exchange(ci)
			n++
		case 4:
			w.save(w.chosen(cl))
		case 5:
			w.restart(ci)
		case 6:
			if len(cl) < 4 {
				w.clients[ci] = append(cl, w.newDoc())
			}
		default:
			w.step(w.ops, w.wts)
		}
	}
	c.Nontriv = n >= 2
}

func init() {
	register(&PropDef{ID: "P23", Mode: "plain", Run: runP23, Quick: 30000, Thorough: 2000000, Batch: 250,
		Rule: "each run: 1-2 clients with 1-3 tables, 6-40 seeded steps of edits, of having another hand write the tables (white space, comments, blank lines, line ends, shapes and spellings of values decided by the seed) and reading them (from strings and from files with interrupted and short reads), of saving and restarting; every loaded table compared cell by cell with what was written; non-trivial: at least 2 foreign texts; distinct by hash of event log and states",
		Real: "gotables parser, printer, file reading and writing, table edits (all unmodified), os, Go runtime, real files in a scratch directory",
		Stub: "the foreign writer of text; system calls on the files answered or altered by the simulator; client interleaving, map order and random numbers decided by it"})
}
