package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"time"
	"unicode/utf8"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- P08, P09, P10: messages between nodes

// codecMsg is a message on the simulated network.
type codecMsg struct {
	id       int
	codec    string
	form     string // encoder used
	text     string // JSON, YAML, gob of a table
	bufs     []string
	isSet    bool
	setName  string
	fileName string
	want     []*Abs
	copies   int
}

func (m *codecMsg) size() int {
	n := len(m.text)
	for _, b := range m.bufs {
		n += len(b)
	}
	return n
}

func (m *codecMsg) show() string {
	if m.codec == "gob" {
		return fmt.Sprintf("%d bytes of gob", m.size())
	}
	return m.text
}

type codecWorld struct {
	W
	codec string
	net   []*codecMsg
	sent  int
	ops   []op
	wts   []int
}

// carries tells whether a codec has to be able to carry a value of a column of type typ. What it
// need not carry it may refuse, but not alter.
func carries(codec, typ string, v interface{}) bool {
	switch x := v.(type) {
	case string:
		return codec == "gob" || utf8.ValidString(x)
	case int32:
		return typ != "rune" || codec == "gob" || utf8.ValidRune(x)
	case float64:
		return codec != "json" || !(math.IsNaN(x) || math.IsInf(x, 0))
	case float32:
		return codec != "json" || !(math.IsNaN(float64(x)) || math.IsInf(float64(x), 0))
	case time.Time:
		_, off := x.Zone()
		return codec != "gob" && x.Year() >= 0 && x.Year() <= 9999 && off%60 == 0
	case *Abs:
		return codec != "gob" && mustCarry(codec, x)
	}
	return true
}

func mustCarry(codec string, a *Abs) bool {
	for _, row := range a.Rows {
		for k, v := range row {
			if !carries(codec, a.Types[k], v) {
				return false
			}
		}
	}
	return true
}

// sendable is what a message keeps of a table.
func sendable(codec string, a *Abs) *Abs {
	b := a.clone()
	if codec != "gob" {
		b.Keys = nil
	}
	for _, row := range b.Rows {
		for k, v := range row {
			if x, ok := v.(*Abs); ok {
				row[k] = sendable(codec, x)
			}
		}
	}
	return b
}

// encode writes tables as a message by a seeded route. err is the encoder's.
func encodeMsg(c *Ctx, codec string, tables []*gt.Table, setName string) (m *codecMsg, p interface{}, st string, err error) {
	m = &codecMsg{codec: codec}
	single := len(tables) == 1 && codec != "yaml" && c.N(2) == 0
	indent := c.N(2) == 0
	var set *gt.TableSet
	if !single {
		m.isSet = true
		m.setName = setName
		if set, err = c.again(tables, setName); err != nil {
			m.form = "AppendTable"
			return
		}
		if codec == "gob" && c.N(3) == 0 {
			set.SetFileName("some/file.got")
		}
		m.fileName = set.FileName()
	}
	p, st = Try(func() {
		switch codec {
		case "json":
			switch {
			case single && indent:
				m.form = "GetTableAsJSONIndent"
				m.text, err = tables[0].GetTableAsJSONIndent()
			case single:
				m.form = "GetTableAsJSON"
				m.text, err = tables[0].GetTableAsJSON()
			case indent:
				m.form = "GetTableSetAsJSONIndent"
				m.text, err = set.GetTableSetAsJSONIndent()
			default:
				m.form = "GetTableSetAsJSON"
				m.text, err = set.GetTableSetAsJSON()
			}
		case "yaml":
			m.form = "GetTableSetAsYAML"
			m.text, err = set.GetTableSetAsYAML()
		case "gob":
			if single {
				m.form = "Table.GobEncode"
				var b []byte
				b, err = tables[0].GobEncode()
				m.text = string(b)
			} else {
				m.form = "TableSet.GobEncode"
				var bs []bytes.Buffer
				bs, err = set.GobEncode()
				for i := range bs {
					m.bufs = append(m.bufs, bs[i].String())
				}
			}
		}
	})
	return
}

// decodeMsg reads a message by a seeded route.
func decodeMsg(c *Ctx, m *codecMsg) (how string, tables []*gt.Table, setName, fileName string, p interface{}, st string, err error) {
	r := c.N(3)
	one := func(t *gt.Table, e error) {
		err = e
		if e == nil {
			tables = []*gt.Table{t}
			setName = m.setName
		}
	}
	whole := func(s *gt.TableSet, e error) {
		err = e
		if e != nil {
			return
		}
		if s == nil {
			err = fmt.Errorf("nil table set and nil error")
			return
		}
		tables, setName, fileName = tablesOf(s), s.Name(), s.FileName()
	}
	p, st = Try(func() {
		switch m.codec {
		case "json":
			if r == 1 && len(m.want) == 1 {
				how = "NewTableFromJSON"
				one(gt.NewTableFromJSON(m.text))
				return
			}
			if r == 2 && len(m.want) > 0 {
				how = "NewTableFromJSONByTableName"
				for _, a := range m.want {
					if a.Nil { // has no name to ask for
						tables = append(tables, gt.NewNilTable())
						continue
					}
					var t *gt.Table
					if t, err = gt.NewTableFromJSONByTableName(m.text, a.Name); err != nil {
						return
					}
					tables = append(tables, t)
				}
				setName = m.setName
				return
			}
			how = "NewTableSetFromJSON"
			whole(gt.NewTableSetFromJSON(m.text))
		case "yaml":
			how = "NewTableSetFromYAML"
			whole(gt.NewTableSetFromYAML(m.text))
		case "gob":
			if !m.isSet {
				if r == 0 {
					how = "NewTableFromGob"
					one(gt.NewTableFromGob([]byte(m.text)))
				} else {
					how = "GobDecodeTable"
					one(gt.GobDecodeTable([]byte(m.text)))
				}
				return
			}
			bufs := make([]bytes.Buffer, len(m.bufs))
			for i := range bufs {
				bufs[i].WriteString(m.bufs[i])
			}
			if r == 0 {
				how = "NewTableSetFromGob"
				whole(gt.NewTableSetFromGob(bufs))
			} else {
				how = "GobDecodeTableSet"
				whole(gt.GobDecodeTableSet(bufs))
			}
		}
	})
	return
}

func showAll(as []*Abs) (s string) {
	for _, a := range as {
		s += a.canon() + "\n"
	}
	return
}

// diffSent compares a decoded table with what was sent.
func diffSent(codec string, want, got *Abs) string {
	return diffAbs(want, got)
}

func (w *codecWorld) send(ci int) {
	c := w.c
	cl := w.clients[ci]
	docs := w.before(cl)
	was := docs != nil
	for _, d := range cl {
		dup := was
		for _, e := range docs {
			dup = dup || e.m.Name == d.m.Name
		}
		if !dup && !d.m.Nil && (len(docs) == 0 || c.N(2) == 0 || len(cl) > 9 && c.N(4) > 0) {
			docs = append(docs, d)
		}
	}
	if c.Chance(1, 12) {
		docs = nil
	} else {
		w.picked = docs
	}
	var tables []*gt.Table
	var want []*Abs
	must := true
	for _, d := range docs {
		tables = append(tables, d.t)
		must = must && mustCarry(w.codec, d.m)
		want = append(want, sendable(w.codec, d.m))
	}
	if c.Chance(1, 15) {
		tables = append(tables, gt.NewNilTable())
		want = append(want, &Abs{Nil: true})
		must = false
		c.Fault("nil table sent")
	}
	setName := pick(c, []string{"", "Set_1", "x"})
	if c.Chance(1, 4) {
		setName = genString(c, w.o)
	}
	m, p, st, err := encodeMsg(c, w.codec, tables, setName)
	m.want = want
	if w.codec != "gob" && m.isSet && !utf8.ValidString(setName) {
		must = false
	}
	c.Ops++
	c.Probe(m.form)
	c.Ev("client %d sends %d tables by %s: %d bytes -> %s", ci, len(docs), m.form, m.size(), errText(err))
	if p != nil {
		c.Fail(m.form+": panic while encoding", "%s panicked: %v\n%s\n%s", m.form, p, showAll(want), trimStack(st))
	}
	for i, d := range docs {
		got, lerr := look(d.t)
		if lerr != nil {
			c.Fail(m.form+": table unreadable after encoding", "%v", lerr)
		}
		if df := diffAbs(d.m, got); df != "" {
			c.Fail(m.form+": encoding changed the table", "%s changed [%s]: %s", m.form, docs[i].m.Name, df)
		}
	}
	if err != nil {
		if must {
			c.Fail(m.form+": refused", "%s: %v\n%s", m.form, err, showAll(want))
		}
		if m.size() > 0 {
			c.Fail(m.form+": error with a message", "%s returned both an error and %d bytes", m.form, m.size())
		}
		c.Probe("contents refused by the encoder")
		return
	}
	if !must {
		c.Probe("contents an encoder may refuse, sent")
	}
	if m.codec == "json" && !json.Valid([]byte(m.text)) {
		c.Fail(m.form+": invalid JSON", "%s wrote invalid JSON:\n%s\n%s", m.form, m.text, showAll(want))
	}
	w.sent++
	m.id = w.sent
	w.net = append(w.net, m)
	if c.Chance(1, 3) { // the same again: the outcome depends on the tables only
		m2, p2, st2, err2 := encodeMsg(c, w.codec, tables, setName)
		if p2 != nil || err2 != nil && (m2.isSet == m.isSet || w.codec == "gob" || utf8.ValidString(setName)) {
			c.Fail(m2.form+": refused the second time", "%s of what %s had accepted: %v %v\n%s", m2.form, m.form, p2, err2, trimStack(st2))
		}
		if m2.form == m.form && m2.codec != "gob" && m2.text != m.text {
			c.Fail(m2.form+": two encodings differ", "%s gave\n%s\nand then\n%s", m.form, m.text, m2.text)
		}
		if err2 == nil {
			m2.want = want
			m2.id = m.id
			w.net = append(w.net, m2)
		}
	}
}

func (w *codecWorld) deliver() {
	c := w.c
	if len(w.net) == 0 {
		return
	}
	i := c.N(len(w.net))
	if i != 0 {
		c.Fault("message reordered")
	}
	m := w.net[i]
	switch c.N(6) {
	case 1:
		c.Fault("message lost")
		w.net = append(w.net[:i], w.net[i+1:]...)
		return
	case 2, 3:
		if m.copies < 3 { // stays on the network: delivered again
			c.Fault("message duplicated")
			m.copies++
			break
		}
		fallthrough
	default:
		w.net = append(w.net[:i], w.net[i+1:]...)
	}
	ci := c.N(len(w.clients))
	ts, got := w.receive(m)
	for k := range ts { // the receiver carries on with what it got
		if len(w.clients[ci]) < 5 && c.N(2) == 0 && !got[k].Nil {
			w.clients[ci] = append(w.clients[ci], &Doc{ts[k], got[k]})
		} else if c.N(2) == 0 && !got[k].Nil {
			w.use(m, ts[k], got[k])
		}
	}
}

func (w *codecWorld) receive(m *codecMsg) (ts []*gt.Table, got []*Abs) {
	c := w.c
	how, ts, setName, fileName, p, st, err := decodeMsg(c, m)
	how = m.form + " > " + how
	c.Ops++
	c.Probe(how)
	c.Ev("message %d: %s -> %s", m.id, how, errText(err))
	if p != nil {
		c.Fail(how+": panic while decoding", "%s panicked: %v\nmessage: %s\n%s", how, p, m.show(), trimStack(st))
	}
	if err != nil {
		c.Fail(how+": own message refused", "%s: %v\n%smessage: %s", how, err, showAll(m.want), m.show())
	}
	if setName != m.setName {
		c.Fail(how+": table set name lost", "%s: set name %q became %q", how, m.setName, setName)
	}
	if m.codec == "gob" && m.isSet && fileName != m.fileName {
		c.Fail(how+": file name lost", "%s: file name %q became %q", how, m.fileName, fileName)
	}
	if len(ts) != len(m.want) {
		c.Fail(how+": wrong number of tables", "%s: %d tables sent, %d received\nmessage: %s", how, len(m.want), len(ts), m.show())
	}
	for i, t := range ts {
		a, lerr := look(t)
		if lerr != nil {
			c.Fail(how+": received table unreadable", "%s: %v\nmessage: %s", how, lerr, m.show())
		}
		if d := diffSent(m.codec, m.want[i], a); d != "" {
			c.Fail(how+": not what was sent", "%s: %s\nsent: %s\nreceived: %s\nmessage: %s", how, d, m.want[i].canon(), a.canon(), m.show())
		}
		if terr := a.typesOK(); terr != nil {
			c.Fail(how+": cell of the wrong type", "%s: %v", how, terr)
		}
		if ok, verr := t.IsValidTable(); !a.Nil && (!ok || verr != nil) {
			c.Fail(how+": received table is invalid", "%s: %v\n%s", how, verr, a.canon())
		}
		got = append(got, a)
		c.State(a.shape())
	}
	if m.codec == "json" && c.N(5) == 4 {
		onlyOne(c, m.form+" > NewTableFromJSON", m.want, m.text, func() (*gt.Table, error) { return gt.NewTableFromJSON(m.text) },
			func(n string) (*gt.Table, error) { return gt.NewTableFromJSONByTableName(m.text, n) }, nil)
	}
	return
}

// use does the same things to a received table and to one with the same contents made by hand.
func (w *codecWorld) use(m *codecMsg, t *gt.Table, a *Abs) {
	c := w.c
	twin := mustBuild(c, a)
	k := 1 + c.N(4)
	done := ""
	for i := 0; i < k; i++ {
		var col string
		if len(a.Cols) > 0 {
			col = pick(c, a.Cols)
		}
		var name string
		var act func(t *gt.Table) (string, error)
		r := c.N(12)
		switch r {
		case 0:
			name, act = "Sort", func(t *gt.Table) (string, error) { return "", t.Sort() }
		case 1:
			name, act = "SortSimple", func(t *gt.Table) (string, error) { return "", t.SortSimple(col) }
		case 2:
			name, act = "AppendRow", func(t *gt.Table) (string, error) { return "", t.AppendRow() }
		case 3:
			name, act = "DeleteRow", func(t *gt.Table) (string, error) { return "", t.DeleteRow(0) }
		case 4:
			name, act = "AppendCol", func(t *gt.Table) (string, error) { return "", t.AppendCol("zz9", "float64") }
		case 5:
			name, act = "DeleteCol", func(t *gt.Table) (string, error) { return "", t.DeleteCol(col) }
		case 6:
			name, act = "RenameCol", func(t *gt.Table) (string, error) { return "", t.RenameCol(col, "zz8") }
		case 7:
			name, act = "SortUnique", func(t *gt.Table) (string, error) {
				u, err := t.SortUnique()
				if err != nil {
					return "", err
				}
				return observe(u).canon(), nil
			}
		case 8:
			name, act = "GetTableAsJSON", func(t *gt.Table) (string, error) { return t.GetTableAsJSON() }
		case 9:
			name, act = "Copy", func(t *gt.Table) (string, error) {
				u, err := t.Copy()
				if err != nil {
					return "", err
				}
				return observe(u).canon() + u.String(), nil
			}
		case 10:
			name, act = "GobEncode", func(t *gt.Table) (string, error) {
				b, err := t.GobEncode()
				if err != nil {
					return "", err
				}
				u, err := gt.GobDecodeTable(b)
				if err != nil {
					return "", err
				}
				return observe(u).canon(), nil
			}
		default:
			name, act = "SetSortKeys", func(t *gt.Table) (string, error) { return "", t.SetSortKeys(col) }
		}
		done += " " + name
		var s1, s2 string
		var e1, e2 error
		p1, _ := Try(func() { s1, e1 = act(twin) })
		if p1 != nil {
			return // another property's business
		}
		p2, st := Try(func() { s2, e2 = act(t) })
		sig := m.codec + ": received table cannot be used like the original: " + name
		if p2 != nil {
			c.Fail(sig, "after%s: %v\n%s\n%s", done, p2, a.canon(), trimStack(st))
		}
		if (e1 == nil) != (e2 == nil) || s1 != s2 {
			c.Fail(sig, "after%s: original %q, %v; received %q, %v\n%s", done, s1, e1, s2, e2, a.canon())
		}
		l1, x1 := look(twin)
		l2, x2 := look(t)
		if x1 != nil {
			return
		}
		if x2 != nil {
			c.Fail(sig, "after%s: %v\n%s", done, x2, a.canon())
		}
		if d := diffAbs(l1, l2); d != "" {
			c.Fail(sig, "after%s: %s\n%s", done, d, a.canon())
		}
		a = l1
	}
	c.Ev("received [%s] used like the original:%s", a.Name, done)
}

// poison puts a value into a table that some codecs cannot carry.
func (w *codecWorld) poison(d *Doc) {
	c := w.c
	if len(d.m.Rows) == 0 {
		return
	}
	r := c.N(len(d.m.Rows))
	for k := 0; k < len(d.m.Cols); k++ {
		var v interface{}
		switch d.m.Types[k] {
		case "rune":
			v = pick(c, []int32{0xD800, 0xDFFF, -1, 0x110000, math.MaxInt32, math.MinInt32, 0xFFFD})
		case "time.Time":
			v = pick(c, []time.Time{time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC),
				time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("", 3601)), time.Date(0, 1, 1, 0, 0, 0, 1, time.UTC)})
		case "string":
			v = pick(c, []string{"\xff", "a\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80"})
		case "float64":
			v = pick(c, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
		case "float32":
			v = pick(c, []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))})
		default:
			continue
		}
		if c.N(2) == 0 {
			continue
		}
		if d.t.SetValByColIndex(k, r, v) != nil {
			c.Abandon("SetValByColIndex")
		}
		d.m.Rows[r][k] = v
		c.Fault("value that some codecs cannot carry")
		c.Ev("[%s] %s row %d set to %s", d.m.Name, d.m.Cols[k], r, canon(v))
		return
	}
}

func runCodec(c *Ctx, id, codec string) {
	w := &codecWorld{W: *newW(c, id), codec: codec}
	w.o.nest = c.N(3)
	w.o.deep = c.N(8) == 7
	if codec == "gob" && c.Chance(2, 3) {
		w.types = textFree(w.types)
		for i, t := range w.types {
			if t == "time.Time" && c.Chance(2, 3) {
				w.types = append([]string{}, w.types...)
				w.types[i] = "int"
			}
		}
	}
	w.o.utf8 = c.Chance(2, 3)
	if codec == "json" && c.Chance(1, 2) {
		w.o.noNaN, w.o.noInf = true, true
	}
	w.ops, w.wts = opMix(c, "2")
	fresh := func() []*Doc { return w.newDocs(3) }
	for i := 0; i < 1+c.N(3); i++ {
		w.clients = append(w.clients, fresh())
	}
	c.Plan(6, 40)
	for c.Step() {
		ci := c.N(len(w.clients))
		cl := w.clients[ci]
		switch c.N(12) {
		case 0, 1, 2:
			w.send(ci)
		case 3, 4, 5:
			w.deliver()
		case 6:
			c.Fault("client restarts with an empty memory")
			c.Ev("client %d restarts", ci)
			w.clients[ci] = fresh()
		case 7:
			d := cl[c.N(len(cl))]
			if c.N(2) == 0 {
				on := c.N(2) == 0
				if d.m.Nil || d.t.SetStructShape(on) != nil {
					continue
				}
				d.m.Struct = on
				c.Ev("client %d [%s]: struct shape %t", ci, d.m.Name, on)
			} else {
				w.poison(d)
			}
		default:
			d := cl[c.N(len(cl))]
			_ = d
			w.step(w.ops, w.wts)
		}
	}
	// faults stop: everything still on the network arrives
	for len(w.net) > 0 {
		m := w.net[0]
		w.net = w.net[1:]
		w.receive(m)
	}
	c.Nontriv = w.sent >= 2
}

func init() {
	real := "gotables encoders and decoders (all unmodified), encoding/json, yaml.v3, encoding/gob, Go runtime"
	stub := "network between the clients (drop, duplicate, reorder), client interleaving, map order and random numbers decided by the simulator"
	rule := "each run: 1-3 clients with 1-3 tables, 6-40 seeded steps of edits, sends, deliveries (lost, duplicated, reordered), restarts and values a codec cannot carry; every received table compared with the sender's table at the time of sending, received tables edited on and used side by side with one made by hand; non-trivial: at least 2 messages sent; distinct by hash of event log and states"
	for id, codec := range map[string]string{"P08": "json", "P09": "yaml", "P10": "gob"} {
		id, codec := id, codec
		register(&PropDef{ID: id, Mode: "plain", Run: func(c *Ctx) { runCodec(c, id, codec) }, Quick: 70000, Thorough: 3000000, Batch: 250, Rule: rule, Real: real, Stub: stub})
	}
}
