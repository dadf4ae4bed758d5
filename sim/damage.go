package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"time"

	gt "github.com/urban-wombat/gotables"
	yaml "gopkg.in/yaml.v3"
)

// ---------------------------------------------------------------- P11: damaged and foreign messages

// node is a message as a tree, whose leaves are raw JSON or YAML tokens.
type node struct {
	kind byte // 'm' map, 'l' list, 'x' leaf
	raw  string
	keys []string // raw
	is   []string // keys, where the writer of the message knows them
	kids []*node
	pre  string // anchor
}

func leaf(raw string) *node { return &node{kind: 'x', raw: raw} }

func quoted(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		return `""`
	}
	return string(b)
}

func toNode(v interface{}) *node {
	switch x := v.(type) {
	case map[string]interface{}:
		n := &node{kind: 'm'}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.keys = append(n.keys, quoted(k))
			n.kids = append(n.kids, toNode(x[k]))
		}
		return n
	case []interface{}:
		n := &node{kind: 'l'}
		for _, e := range x {
			n.kids = append(n.kids, toNode(e))
		}
		return n
	case nil:
		return leaf("null")
	case string:
		return leaf(quoted(x))
	case bool:
		return leaf(strconv.FormatBool(x))
	case json.Number:
		return leaf(x.String())
	case time.Time:
		return leaf(x.Format(time.RFC3339Nano))
	case float64:
		switch {
		case math.IsNaN(x):
			return leaf(".nan")
		case math.IsInf(x, 1):
			return leaf(".inf")
		case math.IsInf(x, -1):
			return leaf("-.inf")
		}
		return leaf(strconv.FormatFloat(x, 'g', -1, 64))
	default:
		return leaf(fmt.Sprint(x))
	}
}

func (n *node) clone() *node {
	m := *n
	m.keys = append([]string(nil), n.keys...)
	m.kids = nil
	for _, k := range n.kids {
		m.kids = append(m.kids, k.clone())
	}
	return &m
}

func (n *node) write(b *strings.Builder) {
	if n.pre != "" {
		b.WriteString(n.pre + " ")
	}
	switch n.kind {
	case 'm':
		b.WriteByte('{')
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(n.keys[i] + ": ")
			k.write(b)
		}
		b.WriteByte('}')
	case 'l':
		b.WriteByte('[')
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(", ")
			}
			k.write(b)
		}
		b.WriteByte(']')
	default:
		b.WriteString(n.raw)
	}
}

func (n *node) all(out []*node) []*node {
	out = append(out, n)
	for _, k := range n.kids {
		out = k.all(out)
	}
	return out
}

const goodTable = `{"tableName": "New_1", "metadata": [{"a": "int"}, {"b": "string"}], "data": [[{"a": 1}, {"b": "x"}]]}`

var jsonLeaves = []string{"null", "true", "false", `""`, `"x"`, `"é"`, `"ab"`, `"\ud800"`, `"int"`, `"*Table"`, `"[]byte"`, `"time.Time"`, `"2020-01-01T00:00:00Z"`, `"2020-13-01T00:00:00Z"`, `"T1"`, `"1a"`, "0", "-0", "-1", "1", "1.5", "255", "256", "-129", "300", "65536", "1e3", "1E400", "-1e-400", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.0", "3.40282357e+38", "3.5e38", "55296", "1114112", "[]", "{}", "[[]]", "[{}]", `{"a": 1}`, `{"a": 1, "b": 2}`, "[1, 2, 256]", `[1, "a"]`, "[null]", "[1.5]", "[-1]", "[0]", goodTable, "[" + goodTable + "]"}

var yamlLeaves = []string{"&a1 [1]", `!!binary "AQ=="`, `!!binary "/w=="`, `!!int "5"`, `!!int "x"`, "!!str 5", "!!set {a, b}", "!!float 1", "2020-01-01", "2020-01-01 10:00:00 -5", "0x1F", "0o17", "0b11", "1_000", ".nan", "-.inf", "~", "!custom x", "!!map {a: b}", "!!seq [1]", "!!timestamp 2020-01-01", "{1: 2}", "{[1]: 2}", "{null: 1}", "{true: int}", "*nowhere", "yes", "[[1], [2]]", "- x", "!!null ''", "!!bool yes", `!!float "1e400"`, "1e400", "190:20:30", "{? a, ? b}", "!!omap [a: 1]", "{<<: {a: 1}, b: 2}", "{<<: 5}"}

var msgKeys = []string{`"tableName"`, `"metadata"`, `"data"`, `"tables"`, `"tableSetName"`, `"isStructShape"`, `""`, `"a b"`, `"a"`, `"TableName"`, `"é"`, `"int"`}

var yamlKeys = []string{"1", "null", "true", "[a, b]", "{a: 1}", `!!binary "AQ=="`, "<<", "? x", "2020-01-01", "*a1", "1.5", "~"}

// damageTree changes a message into one that is still well-formed (mostly) but means something else.
func damageTree(c *Ctx, n, other *node, codec string) string {
	kinds := ""
	for k := 1 + c.N(3); k > 0; k-- {
		all := n.all(nil)
		x := all[c.N(len(all))]
		kind := ""
		switch c.N(9) {
		case 0, 1:
			kind = "value replaced"
			st := jsonLeaves
			if codec == "yaml" && c.N(2) == 0 {
				st = yamlLeaves
			}
			*x = *leaf(pick(c, st))
		case 2:
			kind = "element removed"
			if len(x.kids) == 0 {
				continue
			}
			i := c.N(len(x.kids))
			x.kids = append(append([]*node{}, x.kids[:i]...), x.kids[i+1:]...)
			if x.kind == 'm' {
				x.keys = append(append([]string{}, x.keys[:i]...), x.keys[i+1:]...)
			}
		case 3:
			kind = "element doubled"
			if len(x.kids) == 0 {
				continue
			}
			i := c.N(len(x.kids))
			x.kids = append(append([]*node{}, x.kids...), x.kids[i].clone())
			if x.kind == 'm' {
				k := x.keys[i]
				if c.N(2) == 0 {
					k = pick(c, msgKeys)
				}
				x.keys = append(append([]string{}, x.keys...), k)
			}
		case 4:
			kind = "key renamed"
			if x.kind != 'm' || len(x.keys) == 0 {
				continue
			}
			st := msgKeys
			if codec == "yaml" && c.N(2) == 0 {
				st = yamlKeys
			}
			x.keys[c.N(len(x.keys))] = pick(c, st)
		case 5:
			kind = "elements exchanged"
			if len(x.kids) < 2 {
				continue
			}
			i, j := c.N(len(x.kids)), c.N(len(x.kids))
			x.kids[i], x.kids[j] = x.kids[j], x.kids[i]
		case 6:
			kind = "value wrapped"
			y := *x
			if c.N(2) == 0 {
				*x = node{kind: 'l', kids: []*node{&y}}
			} else {
				*x = node{kind: 'm', keys: []string{pick(c, msgKeys)}, kids: []*node{&y}}
			}
		case 7:
			kind = "value from elsewhere"
			src := all
			if other != nil && c.N(2) == 0 {
				src = other.all(nil)
			}
			y := src[c.N(len(src))].clone()
			if len(y.all(nil)) > 400 {
				continue
			}
			*x = *y
		default:
			if codec != "yaml" {
				continue
			}
			kind = "value shared by an alias"
			y := all[c.N(len(all))]
			if x == y || x.pre != "" {
				continue
			}
			x.pre = "&n" + strconv.Itoa(k)
			*y = *leaf("*n" + strconv.Itoa(k))
		}
		c.Fault("structural damage: " + kind)
		kinds += kind + "; "
	}
	return kinds
}

// gobTable mirrors what gotables sends for a table.
type gobKey struct {
	ColName, ColType string
	Reverse          bool
}

type gobTable struct {
	TableName   string
	ColNames    []string
	ColTypes    []string
	ColNamesMap map[string]int
	Rows        [][]interface{}
	SortKeys    []gobKey
	StructShape bool
	IsNilTable  bool
	ParentTable *gobTable
}

type gobForeign struct{ A, B int }

var gobStock = []interface{}{1, "x", []string{"a"}, map[string]int{"a": 1}, gobForeign{1, 2}, struct{ TableName int }{3}, struct{ ColNames string }{"a"},
	struct{ Rows []string }{[]string{"a"}}, struct{ Rows [][]int }{[][]int{{1}}}, struct{ TableSetName string }{"x"}, struct{ ColNamesMap map[int]string }{map[int]string{1: "a"}}, gobTable{}, []interface{}{1, "a"}}

// gobWarm fixes the numbers that gob gives to types in order of first use, which messages contain.
func gobWarm() {
	t, err := gt.NewTable("T")
	if err != nil {
		return
	}
	Try(func() { t.GobEncode() })
	s, err := gt.NewTableSet("")
	if err != nil {
		return
	}
	Try(func() { s.GobEncode() })
	for _, v := range gobStock {
		gobOf(v)
	}
}

func gobOf(v interface{}) (s string) {
	var b bytes.Buffer
	var err error
	if p, _ := Try(func() { err = gob.NewEncoder(&b).Encode(v) }); p != nil || err != nil {
		return ""
	}
	return b.String()
}

func damageGob(c *Ctx, s string) (string, string) {
	switch c.N(8) {
	case 0:
		c.Fault("structural damage: something else entirely")
		v := pick(c, gobStock)
		return fmt.Sprintf("%T instead of a table", v), gobOf(v)
	}
	var t gobTable
	if gob.NewDecoder(strings.NewReader(s)).Decode(&t) != nil {
		return "", ""
	}
	desc := ""
	for k := 1 + c.N(2); k > 0; k-- {
		kind := ""
		col := c.N(len(t.ColNames) + 1)
		row := c.N(len(t.Rows) + 1)
		switch c.N(14) {
		case 0:
			kind = "column name lost"
			if col < len(t.ColNames) {
				t.ColNames = append(t.ColNames[:col:col], t.ColNames[col+1:]...)
			}
		case 1:
			kind = "column type lost"
			if col < len(t.ColTypes) {
				t.ColTypes = append(t.ColTypes[:col:col], t.ColTypes[col+1:]...)
			}
		case 2:
			kind = "column name changed"
			if col < len(t.ColNames) {
				t.ColNames[col] = pick(c, []string{"", "zz7", "1a", "a b", t.ColNames[0], "int", "é"})
			}
		case 3:
			kind = "column type changed"
			if col < len(t.ColTypes) {
				t.ColTypes[col] = pick(c, append([]string{"", "x", "Int", "[]int"}, allTypes...))
			}
		case 4:
			kind = "column added"
			t.ColNames = append(t.ColNames, "zz6")
			if c.N(2) == 0 {
				t.ColTypes = append(t.ColTypes, "int")
			}
		case 5:
			kind = "column lookup changed"
			if t.ColNamesMap == nil || c.N(4) == 0 {
				t.ColNamesMap = map[string]int{}
			}
			name := "zz5"
			if col < len(t.ColNames) {
				name = t.ColNames[col]
			}
			if c.N(3) == 0 {
				delete(t.ColNamesMap, name)
			} else {
				t.ColNamesMap[name] = pick(c, []int{-1, 0, 1, len(t.ColNames), 1 << 40})
			}
		case 6:
			kind = "row shortened"
			if row < len(t.Rows) && len(t.Rows[row]) > 0 {
				t.Rows[row] = t.Rows[row][:c.N(len(t.Rows[row]))]
			}
		case 7:
			kind = "row lengthened"
			if row < len(t.Rows) {
				t.Rows[row] = append(t.Rows[row], pick(c, []interface{}{1, "x", true}))
			}
		case 8:
			kind = "row added"
			t.Rows = append(t.Rows, pick(c, [][]interface{}{nil, {}, {1}, {"a", 2}}))
		case 9, 10:
			kind = "cell of another type"
			if row < len(t.Rows) && len(t.Rows[row]) > 0 {
				t.Rows[row][c.N(len(t.Rows[row]))] = pick(c, []interface{}{nil, 1, "x", true, int64(5), uint8(3), int32(7), float32(1.5), 2.5, []byte{1}, []byte{}, []string{"a"}, uint(8), gobForeign{1, 2}})
			}
		case 11:
			kind = "table name changed"
			t.TableName = pick(c, []string{"", "zz", "1a", "a b", "é", "\xff"})
		case 12:
			kind = "sort key changed"
			name := "zz4"
			if col < len(t.ColNames) {
				name = t.ColNames[col]
			}
			t.SortKeys = append(t.SortKeys, gobKey{name, pick(c, []string{"", "int", "x"}), c.N(2) == 0})
		default:
			kind = "flags changed"
			t.StructShape = c.N(2) == 0
			t.IsNilTable = c.N(2) == 0
			if c.N(2) == 0 {
				u := t
				t.ParentTable = &u
			}
		}
		c.Fault("structural damage: " + kind)
		desc += kind + "; "
	}
	return desc, gobOf(t)
}

type damageWorld struct {
	W
	ops []op
	wts []int
	log []*codecMsg // good messages sent so far
}

// receiveAny decodes a possibly damaged message by a seeded route.
func receiveAny(c *Ctx, m *codecMsg) (how string, tables []*gt.Table, p interface{}, st string, err error) {
	r := c.N(3)
	one := func(t *gt.Table, e error) {
		if err = e; e == nil {
			tables = []*gt.Table{t}
		}
	}
	whole := func(s *gt.TableSet, e error) {
		if err = e; e == nil {
			if s == nil {
				tables = []*gt.Table{nil}
				return
			}
			tables = tablesOf(s)
		}
	}
	name := "New_1"
	if len(m.want) > 0 {
		name = m.want[c.N(len(m.want))].Name
	}
	p, st = Try(func() {
		switch {
		case m.codec == "json" && r == 0:
			how = "NewTableFromJSON"
			one(gt.NewTableFromJSON(m.text))
		case m.codec == "json" && r == 1:
			how = "NewTableFromJSONByTableName"
			one(gt.NewTableFromJSONByTableName(m.text, name))
		case m.codec == "json":
			how = "NewTableSetFromJSON"
			whole(gt.NewTableSetFromJSON(m.text))
		case m.codec == "yaml":
			how = "NewTableSetFromYAML"
			whole(gt.NewTableSetFromYAML(m.text))
		case !m.isSet && r == 0:
			how = "NewTableFromGob"
			one(gt.NewTableFromGob([]byte(m.text)))
		case !m.isSet:
			how = "GobDecodeTable"
			one(gt.GobDecodeTable([]byte(m.text)))
		default:
			bufs := make([]bytes.Buffer, len(m.bufs))
			for i := range bufs {
				bufs[i].WriteString(m.bufs[i])
			}
			if r == 0 {
				how = "NewTableSetFromGob"
				whole(gt.NewTableSetFromGob(bufs))
			} else {
				how = "GobDecodeTableSet"
				whole(gt.GobDecodeTableSet(bufs))
			}
		}
	})
	return
}

// soundTables checks what a decoder accepted, nested tables included.
func soundTables(c *Ctx, how string, ts []*gt.Table, show string, depth int) {
	var solid []*gt.Table
	for _, t := range ts {
		if t == nil {
			c.Fail(how+": nil table accepted", "message: %s", show)
		}
		if isNil, _ := t.IsNilTable(); !isNil {
			solid = append(solid, t)
		}
	}
	wellFormed(c, how, solid, show)
	if depth > 50 {
		return
	}
	for _, t := range solid {
		for k := 0; k < t.ColCount(); k++ {
			for r := 0; r < t.RowCount(); r++ {
				if typ, _ := t.ColTypeByColIndex(k); typ != "*Table" {
					break
				}
				n, err := t.GetTableByColIndex(k, r)
				if err != nil {
					c.Fail(how+": nested table unreadable", "%v, message: %s", err, show)
				}
				soundTables(c, how, []*gt.Table{n}, show, depth+1)
			}
		}
	}
}

func (m *codecMsg) dump() string {
	if m.codec != "gob" {
		return m.text
	}
	if !m.isSet {
		return fmt.Sprintf("%q", m.text)
	}
	return fmt.Sprintf("%q", m.bufs)
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// accept decodes a damaged message: an error, or sound tables that can be sent on.
func (w *damageWorld) accept(m *codecMsg, desc string) {
	c := w.c
	before := allocated()
	how, ts, p, st, err := receiveAny(c, m)
	grown := allocated() - before
	c.Ops++
	c.Ev("%s message of %d bytes, %s: %s -> %s", m.codec, m.size(), desc, how, errText(err))
	if p != nil {
		c.Fail(how+": panic in "+panicSite(st), "%s on a message (%s): %v\nmessage: %s\n%s", how, desc, p, m.dump(), trimStack(st))
	}
	if grown > 512<<20 {
		c.Fail(how+": memory out of proportion", "%s allocated %d MB for a message of %d bytes (%s)", how, grown>>20, m.size(), desc)
	}
	if err != nil {
		c.Probe(how + ": damaged message refused")
		return
	}
	c.Probe(how + ": damaged message accepted")
	soundTables(c, how, ts, m.dump(), 0)
	var as []*Abs
	for _, t := range ts {
		a, lerr := look(t)
		if lerr != nil {
			c.Fail(how+": accepted table unreadable", "%v, message: %s", lerr, m.dump())
		}
		as = append(as, sendable(m.codec, a))
	}
	// sent on
	m2, p, st, err := encodeMsg(c, m.codec, ts, "")
	if p != nil {
		c.Fail(how+": accepted tables cannot be encoded: panic in "+panicSite(st), "%s: %v\nmessage: %s\n%s", m2.form, p, m.dump(), trimStack(st))
	}
	if err != nil {
		c.Fail(how+": accepted tables cannot be encoded", "%s: %v\n%smessage: %s", m2.form, err, showAll(as), m.dump())
	}
	m2.want = as
	how2, ts2, _, _, p, st, err := decodeMsg(c, m2)
	if p != nil || err != nil {
		c.Fail(how+": accepted tables cannot be decoded again", "%s: %v %v\n%smessage: %s\nsent on: %s", how2, p, err, showAll(as), m.dump(), m2.dump())
	}
	for i := range ts2 {
		a, lerr := look(ts2[i])
		if lerr != nil || i >= len(as) {
			c.Fail(how+": accepted tables decode differently when sent on", "%s: %v", how2, lerr)
		}
		if d := diffAbs(as[i], a); d != "" {
			c.Fail(how+": accepted tables decode differently when sent on", "%s: %s\nmessage: %s\nsent on: %s", how2, d, m.dump(), m2.dump())
		}
	}
	c.State(hashStr(uint64(len(ts)), showAll(as)))
}

// good decodes an undamaged message, however bad the ones before it were.
func (w *damageWorld) good(m *codecMsg) {
	c := w.c
	how, ts, _, _, p, st, err := decodeMsg(c, m)
	c.Ev("good %s message %d: %s -> %s", m.codec, m.id, how, errText(err))
	sig := m.codec + ": good message after bad ones: "
	if p != nil || err != nil || len(ts) != len(m.want) {
		c.Fail(sig+"refused", "%s: %v %v, %d of %d tables\nmessage: %s\n%s", how, p, err, len(ts), len(m.want), m.dump(), trimStack(st))
	}
	for i := range ts {
		a, lerr := look(ts[i])
		if lerr != nil {
			c.Fail(sig+"unreadable", "%s: %v", how, lerr)
		}
		if d := diffAbs(m.want[i], a); d != "" {
			c.Fail(sig+"decoded differently", "%s: %s\nmessage: %s", how, d, m.dump())
		}
	}
}

func (w *damageWorld) send(codec string) *codecMsg {
	c := w.c
	var tables []*gt.Table
	var want []*Abs
	names := map[string]bool{}
	for _, d := range w.clients[c.N(len(w.clients))] {
		if d.m.Nil || names[d.m.Name] || !mustCarry(codec, d.m) || (len(want) > 0 && c.N(2) == 0) {
			continue
		}
		names[d.m.Name] = true
		tables = append(tables, d.t)
		want = append(want, sendable(codec, d.m))
	}
	m, p, _, err := encodeMsg(c, codec, tables, pick(c, []string{"", "Set_1"}))
	if p != nil || err != nil {
		c.Abandon("encoder refuses a good table")
	}
	m.want = want
	m.id = len(w.log) + 1
	w.log = append(w.log, m)
	c.Ev("%s message %d sent: %d tables, %d bytes, %s", codec, m.id, len(want), m.size(), m.form)
	return m
}

func (w *damageWorld) bytes(s, other string) string {
	return (&textWorld{W: w.W}).damageBytes(s, other)
}

func runDamage(c *Ctx) {
	w := &damageWorld{W: *newW(c, "P11")}
	w.o.nest = c.N(3)
	w.o.deep = c.N(8) == 7
	w.o.utf8 = true
	w.o.noNaN, w.o.noInf = c.N(2) == 0, c.N(2) == 0
	w.types = append([]string{}, w.types...)
	if c.N(2) == 0 {
		for i, t := range w.types {
			if t == "time.Time" || t == "*Table" {
				w.types[i] = pick(c, []string{"int", "string"})
			}
		}
	}
	w.ops, w.wts = opMix(c, "2")
	w.clients = [][]*Doc{w.newDocs(3)}
	codecs := [][]string{{"json"}, {"yaml"}, {"gob"}, {"json", "yaml", "gob"}}[c.N(4)]
	bad := 0
	c.Plan(6, 30)
	for c.Step() {
		codec := pick(c, codecs)
		switch c.N(8) {
		case 0:
			w.step(w.ops, w.wts)
			continue
		case 1:
			if len(w.log) > 0 {
				w.good(w.log[c.N(len(w.log))])
				continue
			}
		}
		var m *codecMsg
		if len(w.log) == 0 || c.N(3) == 0 {
			m = w.send(codec)
		} else {
			m = w.log[c.N(len(w.log))]
		}
		other := w.log[c.N(len(w.log))]
		d := &codecMsg{codec: m.codec, isSet: m.isSet, text: m.text, bufs: append([]string{}, m.bufs...), want: m.want}
		desc := ""
		bad++
		switch r := c.N(3); {
		case m.codec == "gob" && m.isSet && c.N(3) == 0:
			i := c.N(len(d.bufs))
			switch c.N(6) {
			case 0:
				desc = "part lost"
				d.bufs = append(d.bufs[:i:i], d.bufs[i+1:]...)
			case 1:
				desc = "part doubled"
				d.bufs = append(d.bufs, d.bufs[i])
			case 2:
				desc = "parts exchanged"
				j := c.N(len(d.bufs))
				d.bufs[i], d.bufs[j] = d.bufs[j], d.bufs[i]
			case 3:
				desc = "part empty"
				d.bufs[i] = ""
			case 4:
				desc = "nothing"
				d.bufs = nil
			default:
				desc = "part from another message"
				if other.codec == "gob" && other.isSet {
					d.bufs[i] = other.bufs[c.N(len(other.bufs))]
				} else {
					d.bufs[i] = other.text
				}
			}
			c.Fault("structural damage: " + desc)
		case r == 0: // bytes
			desc = "bytes damaged"
			if d.isSet && d.codec == "gob" {
				i := c.N(len(d.bufs))
				d.bufs[i] = w.bytes(d.bufs[i], strings.Join(other.bufs, "")+other.text)
			} else {
				for k := 1 + c.N(2); k > 0; k-- {
					d.text = w.bytes(d.text, strings.Join(other.bufs, "")+other.text)
				}
			}
		case d.codec == "gob":
			if d.isSet {
				i := c.N(len(d.bufs))
				var s string
				if desc, s = damageGob(c, d.bufs[i]); s != "" {
					d.bufs[i] = s
				}
			} else {
				var s string
				if desc, s = damageGob(c, d.text); s != "" {
					d.text = s
				}
			}
		default:
			tree := func(m *codecMsg) *node {
				var v interface{}
				if m.codec == "json" {
					dec := json.NewDecoder(strings.NewReader(m.text))
					dec.UseNumber()
					if dec.Decode(&v) != nil {
						return nil
					}
				} else if m.codec != "yaml" || yaml.Unmarshal([]byte(m.text), &v) != nil {
					return nil
				}
				return toNode(v)
			}
			n, o := tree(m), tree(other)
			if n == nil {
				continue
			}
			desc = damageTree(c, n, o, m.codec)
			var b strings.Builder
			n.write(&b)
			d.text = b.String()
		}
		w.accept(d, desc)
	}
	// faults stop: every good message still decodes to what was sent
	for _, m := range w.log {
		w.good(m)
	}
	c.Nontriv = bad >= 3
}

func init() {
	gob.RegisterName("verifsim.foreign", gobForeign{})
	gob.Register([]string{})
	gobWarm()
	register(&PropDef{ID: "P11", Mode: "plain", Run: runDamage, Quick: 50000, Thorough: 3000000, Batch: 250, Hang: 20 * time.Second,
		Rule:   "each run: 1-3 tables edited and sent as JSON, YAML or gob, 6-30 seeded steps of damage (bytes truncated, flipped, lost, doubled, spliced, zeroed; values, keys and elements replaced, removed, doubled, renamed, exchanged, wrapped, aliased; gob parts and fields made inconsistent) and of undamaged deliveries; accepted tables checked for soundness, sent on and decoded again; at the end every good message is decoded once more; non-trivial: at least 3 damaged messages; distinct by hash of event log and states",
		Real:   "gotables encoders and decoders (all unmodified), encoding/json, yaml.v3, encoding/gob, Go runtime",
		Stub:   "network (damages, splices, repeats and reorders messages), foreign senders (mirror structs and trees), map order and random numbers decided by the simulator",
		Assume: []string{"memory out of proportion means more than 512 MB allocated for one message of a few kilobytes"}})
}
