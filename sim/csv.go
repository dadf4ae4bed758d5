package main

import (
	"encoding/csv"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// ---------------------------------------------------------------- P21: CSV for spreadsheets

// csvRecords is a plain RFC 4180 reader, which (unlike encoding/csv) changes no line break inside a
// field. Line breaks between records are \n or \r\n. An empty line is a record of one empty field.
func csvRecords(s string) (recs [][]string, err error) {
	var rec []string
	i := 0
	for i < len(s) {
		var f strings.Builder
		if s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return recs, fmt.Errorf("record %d: quoted field never ends", len(recs))
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						f.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				f.WriteByte(s[i])
				i++
			}
			if i < len(s) && s[i] != ',' && s[i] != '\n' && !strings.HasPrefix(s[i:], "\r\n") {
				return recs, fmt.Errorf("record %d: %q after a quoted field", len(recs), s[i])
			}
		} else {
			for i < len(s) && s[i] != ',' && s[i] != '\n' && !strings.HasPrefix(s[i:], "\r\n") {
				if s[i] == '"' {
					return recs, fmt.Errorf("record %d: quote inside an unquoted field", len(recs))
				}
				f.WriteByte(s[i])
				i++
			}
		}
		rec = append(rec, f.String())
		if i < len(s) && s[i] == ',' {
			i++
			if i == len(s) { // the last field is empty and there is no line break
				recs = append(recs, append(rec, ""))
				return recs, nil
			}
			continue
		}
		if i < len(s) && s[i] == '\r' {
			i++
		}
		i++
		recs = append(recs, rec)
		rec = nil
	}
	return recs, nil
}

// csvField tells what is wrong with a field as the text of a cell.
func csvField(typ string, v interface{}, f string) string {
	want := ""
	switch x := v.(type) {
	case string:
		want = x
	case bool:
		want = strconv.FormatBool(x)
	case float64:
		if math.IsNaN(x) {
			break
		}
		y, err := strconv.ParseFloat(f, 64)
		if err != nil || math.Float64bits(y) != math.Float64bits(x) {
			return fmt.Sprintf("field %q is not the number %v", f, x)
		}
		return ""
	case float32:
		if x != x {
			break
		}
		y, err := strconv.ParseFloat(f, 32)
		if err != nil || math.Float32bits(float32(y)) != math.Float32bits(x) {
			return fmt.Sprintf("field %q is not the number %v", f, x)
		}
		return ""
	case []byte:
		want = fmt.Sprint(x)
	case time.Time:
		if _, off := x.Zone(); x.Year() < 0 || x.Year() > 9999 || off%60 != 0 || off <= -86400 || off >= 86400 {
			return ""
		}
		y, err := time.Parse(time.RFC3339Nano, f)
		if err != nil {
			return fmt.Sprintf("field %q is not a time: %v", f, err)
		}
		_, o1 := x.Zone()
		_, o2 := y.Zone()
		if !x.Equal(y) || o1 != o2 {
			return fmt.Sprintf("field %q is not the time %s", f, x.Format(time.RFC3339Nano))
		}
		return ""
	case *Abs:
		want = "[" + x.Name + "]"
	case int32:
		if typ == "rune" {
			if !utf8.ValidRune(x) {
				return ""
			}
			want = string(rune(x))
		} else {
			want = fmt.Sprint(x)
		}
	default:
		want = fmt.Sprint(x)
	}
	if f != want {
		return fmt.Sprintf("field %q, expecting %q", f, want)
	}
	return ""
}

type csvMsg struct {
	id   int
	text string
	head []string
	want *Abs
	left int
}

type csvWorld struct {
	W
	net  []*csvMsg
	sent int
}

func (w *csvWorld) send(d *Doc) {
	c := w.c
	n := len(d.m.Cols)
	head := append([]string{}, d.m.Cols...)
	var subst []string
	bad := false
	switch c.N(4) {
	case 1, 2:
		for i := 0; i < n; i++ {
			s := ""
			if c.N(3) > 0 {
				s = genString(c, w.o)
			}
			subst = append(subst, s)
			if s != "" {
				head[i] = s
			}
		}
	case 3:
		if c.N(3) == 0 {
			k := 1 + c.N(n+2)
			for i := 0; i < k; i++ {
				subst = append(subst, "h"+strconv.Itoa(i))
			}
			bad = k != n
			if !bad {
				head = append([]string{}, subst...)
			}
		}
	}
	var text string
	var err error
	given := append([]string{}, subst...)
	p, st := Try(func() { text, err = d.t.GetTableAsCSV(subst...) })
	c.Ops++
	c.Probe("GetTableAsCSV")
	c.Ev("[%s] as CSV with headings %q: %d bytes -> %s", d.m.Name, subst, len(text), errText(err))
	if p != nil {
		c.Fail("GetTableAsCSV panicked", "%v\n%s\n%s", p, d.m.canon(), trimStack(st))
	}
	for i := range given {
		if subst[i] != given[i] {
			c.Fail("GetTableAsCSV changed the caller's headings", "heading %d was %q, now %q", i, given[i], subst[i])
		}
	}
	got, lerr := look(d.t)
	if lerr != nil {
		c.Fail("table unreadable after GetTableAsCSV", "%v", lerr)
	}
	if df := diffAbs(d.m, got); df != "" {
		c.Fail("GetTableAsCSV changed the table", "[%s]: %s", d.m.Name, df)
	}
	if bad || d.m.Nil {
		c.Fault("wrong number of headings, or a nil table")
		if err == nil {
			c.Fail("GetTableAsCSV accepted a wrong number of headings", "%d headings for %d cols, nil table %t", len(subst), n, d.m.Nil)
		}
		if text != "" {
			c.Fail("GetTableAsCSV: error with a text", "%v\n%q", err, text)
		}
		return
	}
	if err != nil {
		c.Fail("GetTableAsCSV refused", "%v\n%s", err, d.m.canon())
	}
	w.sent++
	w.net = append(w.net, &csvMsg{w.sent, text, head, d.m.clone(), 1 + c.N(2)})
}

// receive reads a CSV text the way a spreadsheet does.
func (w *csvWorld) receive(m *csvMsg) {
	c := w.c
	if len(m.want.Cols) == 0 {
		return
	}
	recs, err := csvRecords(m.text)
	if err != nil {
		c.Fail("CSV is not CSV", "%v\n%s\n%s", err, m.text, m.want.canon())
	}
	w.compare(m, "", recs, func(s string) string { return s })
	r := csv.NewReader(strings.NewReader(m.text))
	recs, err = r.ReadAll()
	if err != nil {
		c.Fail("encoding/csv refuses the CSV", "%v\n%s\n%s", err, m.text, m.want.canon())
	}
	// This reader changes line breaks inside a field to \n.
	w.compare(m, "encoding/csv: ", recs, func(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") })
	c.Ev("message %d: %d records as sent", m.id, len(recs))
	c.State(m.want.shape())
}

func (w *csvWorld) compare(m *csvMsg, by string, recs [][]string, norm func(string) string) {
	c := w.c
	a := m.want
	if len(recs) != len(a.Rows)+1 {
		c.Fail(by+"CSV has the wrong number of records", "a heading and %d rows were sent, %d records received\n%s\n%s", len(a.Rows), len(recs), m.text, a.canon())
	}
	for k, rec := range recs {
		if len(rec) != len(a.Cols) {
			c.Fail(by+"CSV record has the wrong number of fields", "record %d: %d fields for %d cols: %q\n%s", k, len(rec), len(a.Cols), rec, m.text)
		}
		for i, f := range rec {
			if k == 0 {
				if norm(m.head[i]) != f {
					c.Fail(by+"CSV heading differs", "field %d: %q, expecting %q\n%s", i, f, m.head[i], m.text)
				}
				continue
			}
			v := a.Rows[k-1][i]
			if s, ok := v.(string); ok {
				v = norm(s)
			}
			if d := csvField(a.Types[i], v, f); d != "" {
				c.Fail(by+"CSV field differs: "+a.Types[i], "row %d col %s: %s\n%s\n%s", k-1, a.Cols[i], d, m.text, a.canon())
			}
		}
	}
}

// texts compares the text of each cell, got one by one, with the cell.
func (w *csvWorld) texts(d *Doc) {
	c := w.c
	if d.m.Nil || len(d.m.Rows) == 0 || len(d.m.Cols) == 0 {
		return
	}
	r := c.N(len(d.m.Rows))
	for i, col := range d.m.Cols {
		var s1, s2 string
		var e1, e2 error
		p, st := Try(func() {
			s1, e1 = d.t.GetValAsString(col, r)
			s2, e2 = d.t.GetValAsStringByColIndex(i, r)
		})
		if p != nil {
			c.Fail("GetValAsString panicked", "%v\n%s", p, trimStack(st))
		}
		if e1 != nil || e2 != nil || s1 != s2 {
			c.Fail("GetValAsString by name and by index differ", "%q %v, %q %v", s1, e1, s2, e2)
		}
		if x, ok := d.m.Rows[r][i].(float64); ok && x != x {
			continue
		}
		if x, ok := d.m.Rows[r][i].(float32); ok && x != x {
			continue
		}
		if df := csvField(d.m.Types[i], d.m.Rows[r][i], s1); df != "" {
			c.Fail("GetValAsString differs: "+d.m.Types[i], "row %d col %s: %s", r, col, df)
		}
	}
	c.Probe("GetValAsString")
	c.Ev("[%s] row %d as text", d.m.Name, r)
}

func runP21(c *Ctx) {
	w := &csvWorld{W: *newW(c, "P21")}
	w.o.nest = c.N(3)
	w.o.deep = c.N(8) == 7
	ops, wts := opMix(c, "2")
	fresh := func() (cl []*Doc) {
		for j := 0; j < 1+c.N(3); j++ {
			cl = append(cl, w.newDoc())
		}
		return
	}
	for i := 0; i < 1+c.N(3); i++ {
		w.clients = append(w.clients, fresh())
	}
	c.Plan(6, 40)
	for c.Step() {
		ci := c.N(len(w.clients))
		cl := w.clients[ci]
		switch c.N(12) {
		case 0, 1, 2:
			w.send(cl[c.N(len(cl))])
		case 3, 4:
			if len(w.net) == 0 {
				continue
			}
			i := c.N(len(w.net))
			if i > 0 {
				c.Fault("message reordered")
			}
			m := w.net[i]
			if c.N(6) == 0 {
				c.Fault("message lost")
				m.left = 0
			} else {
				w.receive(m)
				m.left--
				if m.left > 0 {
					c.Fault("message duplicated")
				}
			}
			if m.left <= 0 {
				w.net = append(w.net[:i], w.net[i+1:]...)
			}
		case 5:
			w.texts(cl[c.N(len(cl))])
		case 6:
			if c.N(3) == 0 {
				c.Fault("client restarts with an empty memory")
				c.Ev("client %d restarts", ci)
				w.clients[ci] = fresh()
			}
		default:
			w.step(ops, wts)
		}
	}
	for _, m := range w.net {
		w.receive(m)
	}
	c.Nontriv = w.sent >= 2
}

func init() {
	register(&PropDef{ID: "P21", Mode: "plain", Run: runP21, Quick: 60000, Thorough: 3000000, Batch: 250,
		Rule: "each run: 1-3 clients with 1-3 tables, 6-40 seeded steps of edits, exports with and without substitute headings (right and wrong in number), deliveries (lost, duplicated, reordered) and restarts; every text received is read by a plain RFC 4180 reader and by encoding/csv and compared with the sender's table at the time of sending; non-trivial: at least 2 texts sent; distinct by hash of event log and states",
		Real: "GetTableAsCSV, GetValAsString, table edits (all unmodified), encoding/csv, Go runtime",
		Stub: "network between the clients (drop, duplicate, reorder), client interleaving, map order and random numbers decided by the simulator"})
}
