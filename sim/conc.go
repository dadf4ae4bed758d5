//go:build simrace

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	gt "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- the scheduler
//
// Every statement of the library calls schedYield (see instrument). Exactly one client
// goroutine, the one whose turn it is, gets past it; the others spin in schedWait. The
// turn changes at the planned points only. The hand-over uses plain memory in functions
// the race detector does not look at (GOMAXPROCS is 1), so it orders nothing as far as
// the race detector is concerned: it judges the clients' accesses as if they ran freely.

const maxClients = 5

type switchPoint struct {
	at uint64 // number of yields
	to int    // client
}

type switchRec struct {
	from, to   int
	call, tcal int
	at         uint64
}

var sch struct {
	on      bool
	solo    bool
	turn    int
	n       int
	id      [maxClients]uint64
	done    [maxClients]bool
	call    [maxClients]int
	count   uint64
	pace    uint64 // with pace > 0: also switch to the next client every pace yields
	paceOff uint64
	plan    []switchPoint
	next    int
	log     []switchRec
	logN    int
	stolen  int
	locked  int
	files   int // calls on files that are under way
}

//go:norace
func schedYield() {
	if !sch.on {
		return
	}
	if sch.solo {
		sch.count++
		return
	}
	g := runtime.SimGoid()
	me := -1
	for i := 0; i < sch.n; i++ {
		if sch.id[i] == g {
			me = i
		}
	}
	if me < 0 {
		return
	}
	sch.count++
	if sch.turn != me {
		schedWait(me)
	}
	if sch.count&63 == 0 {
		runtime.Gosched() // a goroutine that a lock has just let go gets to its next statement here
		if sch.turn != me {
			schedWait(me)
		}
	}
	if sch.next < len(sch.plan) && sch.count >= sch.plan[sch.next].at {
		to := sch.plan[sch.next].to
		sch.next++
		schedTo(me, to)
	} else if sch.pace > 0 && (sch.count+sch.paceOff)%sch.pace == 0 {
		schedTo(me, (me+1)%sch.n)
	}
}

// schedLock is called when a client finds a lock taken.
//
//go:norace
func schedLock() bool {
	if !sch.on || sch.solo {
		return false
	}
	g := runtime.SimGoid()
	for me := 0; me < sch.n; me++ {
		if sch.id[me] == g {
			if sch.turn != me {
				schedWait(me)
			}
			schedTo(me, (me+1)%sch.n)
			sch.locked++
			return true
		}
	}
	return false
}

//go:norace
func schedTo(me, to int) {
	for i := 0; i < sch.n && (sch.done[to] || to == me); i++ {
		to = (to + 1) % sch.n
	}
	if sch.done[to] || to == me {
		return
	}
	if sch.logN < len(sch.log) {
		sch.log[sch.logN] = switchRec{me, to, sch.call[me], sch.call[to], sch.count}
	}
	sch.logN++
	sch.turn = to
	if me >= 0 && !sch.done[me] {
		schedWait(me)
	}
}

//go:norace
func schedWait(me int) {
	seen, spins := sch.count, 0
	for sch.turn != me {
		runtime.Gosched()
		if sch.count != seen {
			seen, spins = sch.count, 0
		}
		spins++
		limit := 20000
		if sch.files > 0 { // the system may take its time
			limit = 20000000
		}
		if spins > limit { // the one whose turn it is waits for a lock that another client has
			sch.stolen++
			sch.turn = me
		}
	}
}

//go:norace
func schedEnter(me int) {
	sch.id[me] = runtime.SimGoid()
	schedWait(me)
}

//go:norace
func schedLeave(me int) {
	sch.done[me] = true
	schedTo(me, (me+1)%sch.n)
}

//go:norace
func schedFiles(n int) { sch.files += n }

//go:norace
func schedCall(me, k int) { sch.call[me] = k }

//go:norace
func schedReset(n int, solo bool) {
	sch.n, sch.solo, sch.turn, sch.count, sch.next, sch.logN, sch.stolen, sch.locked = n, solo, 0, 0, 0, 0, 0, 0
	sch.files = 0
	sch.pace, sch.paceOff, sch.plan = 0, 0, nil
	if sch.log == nil {
		sch.log = make([]switchRec, 4000)
	}
	for i := range sch.id {
		sch.id[i], sch.done[i], sch.call[i] = 0, false, -1
	}
	sch.on = true
}

// ---------------------------------------------------------------- the clients' calls

type callArg struct {
	u uint64
	s string
}

type callSpec struct {
	kind   string // "table", "set", "shared", "sharedset", "walk", "circle", "parse", "json", "json1", "yaml", "gob", "gobset", "misc", "new"
	recv   uint64
	method string
	args   []callArg
	text   string
	bufs   []string
}

type concClient struct {
	me     int
	start  []*Abs
	script []callSpec
	own    []*gt.Table
	sets   []*gt.TableSet
	dir    string      // the client's own directory
	views  []*gt.Table // results that may share nested tables with the shared tables
	shared []*gt.Table
	ssets  []*gt.TableSet
	out    []string
}

var tableT = reflect.TypeOf((*gt.Table)(nil))
var setT = reflect.TypeOf((*gt.TableSet)(nil))

// Methods left out: they write files or to the terminal, or take functions (walked separately).
var notCalled = map[string]bool{"WriteFile": true, "Walk": true, "GobDecode": true, "UnmarshalJSON": true, "PrintCellInfo": true}

var readPrefixes = []string{"Get", "Is", "Has", "Col", "Row", "Search", "Compare", "Copy", "String", "Equals", "Join", "Name", "FileName",
	"NewTableFromRows", "NewTableReorderCols", "SortUnique", "SortKeyCount", "Generate", "GobEncode", "Merge", "ParentTable", "TableCount", "TableIndex"}

func isRead(name string) bool {
	for _, p := range readPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type methodPool struct {
	names   []string
	weights []int
}

func methodsOf(t reflect.Type, only func(string) bool) (p methodPool) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if notCalled[m.Name] || !only(m.Name) {
			continue
		}
		fn := false
		for k := 1; k < m.Type.NumIn(); k++ {
			in := m.Type.In(k)
			if in.Kind() == reflect.Slice && m.Type.IsVariadic() {
				in = in.Elem()
			}
			fn = fn || in.Kind() == reflect.Func || in.Kind() == reflect.Ptr && in != tableT && in != setT
		}
		if fn {
			continue
		}
		w := 12
		if typedBy(m.Name) != "" {
			w = 1
		}
		p.names = append(p.names, m.Name)
		p.weights = append(p.weights, w)
	}
	return
}

// typedBy gives the column type a typed accessor is for.
func typedBy(name string) (typ string) {
	n := name
	if !strings.HasPrefix(n, "Get") && !strings.HasPrefix(n, "Set") {
		return ""
	}
	n = strings.TrimSuffix(strings.TrimSuffix(n[3:], "MustGet"), "MustSet")
	n = strings.TrimSuffix(n, "ByColIndex")
	for _, t := range allTypes {
		if accessor(t) == n {
			return t
		}
	}
	return ""
}

var poolAllTable, poolAllSet, poolReadTable, poolReadSet methodPool

func concPools() {
	if poolAllTable.names != nil {
		return
	}
	all := func(string) bool { return true }
	poolAllTable, poolAllSet = methodsOf(tableT, all), methodsOf(setT, all)
	poolReadTable, poolReadSet = methodsOf(tableT, isRead), methodsOf(setT, isRead)
}

func genCall(c *Ctx, reading bool) callSpec {
	s := callSpec{recv: c.U(0)}
	kinds := []string{"table", "set", "walk", "circle", "parse", "json", "yaml", "gob", "misc", "new", "save", "load"}
	weights := []int{40, 8, 5, 2, 8, 5, 3, 5, 3, 4, 2, 2}
	if reading {
		kinds = []string{"shared", "sharedset", "sharedwalk", "table", "set", "walk", "parse", "new", "save", "load"}
		weights = []int{50, 15, 8, 15, 3, 2, 2, 2, 4, 1}
	}
	s.kind = kinds[c.Weighted(weights)]
	p := &poolAllTable
	switch s.kind {
	case "set":
		p = &poolAllSet
	case "shared":
		p = &poolReadTable
	case "sharedset":
		p = &poolReadSet
	case "table":
	default:
		p = nil
	}
	nargs := 3
	if p != nil {
		s.method = p.names[c.Weighted(p.weights)]
		nargs = 5
	}
	for i := 0; i < nargs; i++ {
		a := callArg{u: c.U(0)}
		switch c.N(6) {
		case 0:
			a.s = badName(c)
		case 1:
			a.s = genString(c, genOpt{})
		default:
			a.s = newName(c, nil)
		}
		s.args = append(s.args, a)
	}
	switch s.kind {
	case "parse", "json", "yaml", "gob", "load":
		s.genText(c)
	}
	return s
}

func oftenSmall(c *Ctx, n int) int {
	if c.Chance(1, 10) {
		return 4 * n
	}
	return n
}

// seldomWide is a number of columns, now and then a large one.
func seldomWide(c *Ctx, n int) int {
	if c.Chance(1, 12) {
		return 4 * n
	}
	return n
}

// genText makes the text or bytes the client will read.
func (s *callSpec) genText(c *Ctx) {
	var ts []*gt.Table
	n := 1 + c.N(3)
	var as []*Abs
	for i := 0; i < n; i++ {
		a := genAbs(c, fmt.Sprintf("%s%d", newName(c, nil), i), genOpt{}, seldomWide(c, 4), oftenSmall(c, 4), concFlat)
		if (s.kind == "parse" || s.kind == "load") && c.N(3) == 0 {
			a.Struct = true
		}
		as = append(as, a)
		if c.N(2) == 0 {
			s.args[2].s = a.Name
		}
		t, err := build(a)
		if err != nil {
			c.Abandon("building a text")
		}
		ts = append(ts, t)
	}
	set, _ := gt.NewTableSet("")
	for _, t := range ts {
		set.AppendTable(t)
	}
	var err error
	switch s.kind {
	case "parse", "load":
		if c.N(2) == 0 {
			s.text = set.String()
		} else {
			s.text = set.StringUnpadded()
		}
		if c.N(2) == 0 {
			ls := outline("", as, s.text)
			if len(ls) > 0 {
				invalidLine(c, ls, c.N(len(ls)), as)
				s.text = joinLines(ls)
			}
		}
	case "json":
		s.text, err = set.GetTableSetAsJSON()
		if c.N(3) == 0 {
			s.method = "one"
			s.text, err = ts[0].GetTableAsJSONIndent()
		}
	case "yaml":
		s.text, err = set.GetTableSetAsYAML()
	case "gob":
		if c.N(2) == 0 {
			s.method = "one"
			var b []byte
			b, err = ts[0].GobEncode()
			s.text = string(b)
			if c.N(3) == 0 {
				if _, d := damageGob(c, s.text); d != "" {
					s.text = d
				}
			}
		} else {
			var bs []bytes.Buffer
			bs, err = set.GobEncode()
			for i := range bs {
				s.bufs = append(s.bufs, bs[i].String())
			}
		}
	}
	if err != nil { // a value this encoding cannot carry
		s.text, s.bufs = "{}", nil
	}
	if s.kind == "json" || s.kind == "yaml" {
		if c.N(3) == 0 && len(s.text) > 0 {
			i := c.N(len(s.text))
			s.text = s.text[:i] + pick(c, []string{"", "}", "\"", "9", ",", "\n", "x"}) + s.text[i+1:]
		}
	}
}

var concFlat = []string{"string", "int", "bool", "float64", "uint8", "rune", "int64", "float32", "[]byte", "uint", "time.Time", "int16"}
var concNest = []string{"string", "int", "string", "int", "float64", "bool", "[]byte", "*Table", "time.Time", "uint16", "rune", "int8"}

var ptrRE = regexp.MustCompile(`0x?c0[0-9a-f]{8}`)

func scrub(s string) string {
	if strings.Contains(s, "c0") {
		return ptrRE.ReplaceAllString(s, "PTR")
	}
	return s
}

func renderTable(t *gt.Table) string {
	if t == nil {
		return "<nil table>"
	}
	a, err := look(t)
	if err != nil {
		return "unreadable: " + err.Error()
	}
	return a.canon()
}

func renderSet(s *gt.TableSet) string {
	if s == nil {
		return "<nil set>"
	}
	out := fmt.Sprintf("set %q file %q:", s.Name(), s.FileName())
	for i := 0; i < s.TableCount(); i++ {
		t, err := s.GetTableByTableIndex(i)
		if err != nil {
			out += "\n" + err.Error()
			continue
		}
		out += "\n" + renderTable(t)
	}
	return out
}

func renderAny(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *gt.Table:
		return renderTable(x)
	case *gt.TableSet:
		return renderSet(x)
	case error:
		return "error " + x.Error()
	case []bytes.Buffer:
		s := "bufs"
		for i := range x {
			s += " " + fmt.Sprintf("%x", x[i].Bytes())
		}
		return s
	case time.Time, float32, float64, []byte:
		return canon(x)
	case gt.Row:
		if x.Table == nil {
			return fmt.Sprintf("row %d of no table", x.RowIndex)
		}
		return fmt.Sprintf("row %d of %s", x.RowIndex, x.Table.Name())
	case gt.CellInfo:
		n := ""
		if x.Table != nil {
			n = x.Table.Name()
		}
		return fmt.Sprintf("cell %s %s %d %d of %s", x.ColName, x.ColType, x.ColIndex, x.RowIndex, n)
	case map[string]interface{}:
		var ks []string
		for k, e := range x {
			ks = append(ks, k+"="+renderAny(e))
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	case []interface{}:
		var ks []string
		for _, e := range x {
			ks = append(ks, renderAny(e))
		}
		return strings.Join(ks, ",")
	}
	return fmt.Sprintf("%T %v", v, v)
}

func oneOf[T any](xs []T, u uint64) (x T) {
	if len(xs) == 0 {
		return
	}
	return xs[u%uint64(len(xs))]
}

func hasTableCol(t *gt.Table) bool {
	for i := 0; i < t.ColCount(); i++ {
		if is, err := t.IsTableColByColIndex(i); err != nil || is {
			return true
		}
	}
	return false
}

// tableArg picks a table to pass to a method.
func (cl *concClient) tableArg(method string, u uint64, onShared bool) *gt.Table {
	keep := strings.HasPrefix(method, "Set") && strings.Contains(method, "Table") && !strings.Contains(method, "SortKeys") ||
		strings.HasPrefix(method, "SetVal") || method == "Nest" || strings.HasPrefix(method, "IsValidCell") || strings.HasPrefix(method, "IsValidCol")
	var t *gt.Table
	if len(cl.shared) > 0 && (onShared || u>>32%2 == 0) {
		t = oneOf(cl.shared, u)
		if !onShared && hasTableCol(t) { // would put shared nested tables into an own table
			keep = true
		}
	} else {
		t = oneOf(cl.own, u)
	}
	if t == nil || keep {
		src := t
		if src == nil {
			return gt.NewNilTable()
		}
		cp, err := src.CopyDeep()
		if err != nil || len(renderTable(cp)) > 4000 {
			return gt.NewNilTable()
		}
		return cp
	}
	return t
}

func (cl *concClient) argFor(in reflect.Type, method string, i int, a callArg, t *gt.Table, s *gt.TableSet, onShared bool) reflect.Value {
	cols, rows := 0, 0
	if t != nil {
		cols, rows = t.ColCount(), t.RowCount()
	}
	switch in {
	case tableT:
		return reflect.ValueOf(cl.tableArg(method, a.u, onShared))
	case setT:
		x := oneOf(cl.sets, a.u)
		if onShared {
			x = oneOf(cl.ssets, a.u)
		}
		return reflect.ValueOf(x)
	case reflect.TypeOf(time.Time{}):
		return reflect.ValueOf(time.Unix(int64(a.u%4e9), 0).UTC())
	case reflect.TypeOf([]byte{}):
		return reflect.ValueOf([]byte(a.s))
	case reflect.TypeOf([]string{}):
		var l []string
		for k := uint64(0); k < a.u%4 && cols > 0; k++ {
			n, _ := t.ColName(int((a.u + k) % uint64(cols)))
			l = append(l, n)
		}
		return reflect.ValueOf(l)
	}
	v := reflect.New(in).Elem()
	switch in.Kind() {
	case reflect.String:
		str := a.s
		mode := a.u % 8
		naming := method == "SetName" || method == "RenameTable" || strings.HasPrefix(method, "NewTableFromRows") && i == 0
		switch {
		case s != nil:
			if n := s.TableCount(); n > 0 && mode < 6 && !(method == "SetName") {
				if x, err := s.GetTableByTableIndex(int((a.u >> 8) % uint64(n))); err == nil && x != nil {
					str = x.Name()
				}
			}
		case naming:
		case i == 1 && (strings.HasPrefix(method, "AppendCol") || strings.HasPrefix(method, "IsColType") || strings.HasPrefix(method, "SetColType")):
			if mode < 7 {
				str = allTypes[(a.u>>8)%uint64(len(allTypes))]
			}
		case i == 0 && method == "AppendCol":
		case i == 2: // the value for SetString
		case cols > 0 && mode < 7:
			k := int((a.u >> 8) % uint64(cols))
			if typ := typedBy(method); typ != "" {
				for d := 0; d < cols; d++ {
					if ct, _ := t.ColTypeByColIndex((k + d) % cols); ct == typ {
						k = (k + d) % cols
						break
					}
				}
			}
			str, _ = t.ColName(k)
		}
		v.SetString(str)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k := int64(a.u % 5)
		if in.Kind() == reflect.Int {
			lim := rows
			if i == 0 && strings.Contains(method, "ByColIndex") {
				lim = cols
			}
			if s != nil {
				lim = s.TableCount()
			}
			if lim > 0 && a.u%8 < 7 {
				k = int64((a.u >> 8) % uint64(lim))
			}
			if a.u%16 == 15 {
				k = -1
			}
			if i == 0 && typedBy(method) != "" && strings.Contains(method, "ByColIndex") {
				for d := 0; d < cols; d++ {
					if ct, _ := t.ColTypeByColIndex((int(k) + d + cols) % cols); ct == typedBy(method) {
						k = int64((int(k) + d + cols) % cols)
						break
					}
				}
			}
		}
		v.SetInt(k)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(a.u & 0x7f)
	case reflect.Bool:
		v.SetBool(a.u&1 == 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(a.u%1000) / 8)
	case reflect.Interface:
		var x interface{} = a.s
		if t != nil && cols > 0 && rows > 0 && a.u%8 < 7 {
			k := int((a.u >> 8) % uint64(cols))
			if strings.Contains(method, "Search") {
				if kt, err := t.GetSortKeysAsTable(); err == nil && i < kt.RowCount() {
					cn, _ := kt.GetString("colName", i)
					if ci, err := t.ColIndex(cn); err == nil {
						k = ci
					}
				}
			}
			if y, err := t.GetValByColIndex(k, int((a.u>>16)%uint64(rows))); err == nil && y != nil {
				x = y
				if b, is := y.([]byte); is {
					x = append([]byte{}, b...)
				}
				if n, is := y.(*gt.Table); is {
					x, _ = n.CopyDeep()
				}
			}
		}
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	}
	return v
}

func (cl *concClient) invoke(recv reflect.Value, sp *callSpec, t *gt.Table, s *gt.TableSet, onShared bool) (res string) {
	m := recv.MethodByName(sp.method)
	mt := m.Type()
	var args []reflect.Value
	n := mt.NumIn()
	for i := 0; i < n; i++ {
		a := sp.args[i%len(sp.args)]
		if mt.IsVariadic() && i == n-1 {
			k := int(a.u % 3)
			if onShared && sp.method == "SortUnique" {
				break // with arguments it sets the sort keys of the table, as documented
			}
			if strings.Contains(sp.method, "Search") && t != nil && a.u%5 > 0 {
				k = t.SortKeyCount()
			}
			if strings.Contains(sp.method, "Reorder") && t != nil && a.u%5 > 0 {
				// a rotation of all columns
				for j := 0; j < t.ColCount(); j++ {
					cn, _ := t.ColName((j + int(a.u>>8%7)) % t.ColCount())
					args = append(args, reflect.ValueOf(cn))
				}
				break
			}
			for j := 0; j < k; j++ {
				b := sp.args[(i+j)%len(sp.args)]
				args = append(args, cl.argFor(mt.In(i).Elem(), sp.method, j, b, t, s, onShared))
			}
			break
		}
		if sp.method == "NewTreeTable" || sp.method == "NewTreeTable1" {
			args = append(args, reflect.ValueOf(int(a.u%2)))
			continue
		}
		args = append(args, cl.argFor(mt.In(i), sp.method, i, a, t, s, onShared))
	}
	outs := m.Call(args)
	var parts []string
	for _, o := range outs {
		v := o.Interface()
		parts = append(parts, renderAny(v))
		switch x := v.(type) {
		case *gt.Table:
			cl.got(x, sp.method, onShared)
		case *gt.TableSet:
			if x != nil && !onShared && len(cl.sets) < 4 && x != cl.sets[0] {
				cl.sets = append(cl.sets, x)
			}
		}
	}
	return strings.Join(parts, " | ")
}

// got keeps a table a call gave.
func (cl *concClient) got(x *gt.Table, method string, onShared bool) {
	if x == nil {
		return
	}
	for _, l := range [][]*gt.Table{cl.own, cl.views, cl.shared} {
		for _, y := range l {
			if x == y {
				return
			}
		}
	}
	if strings.HasPrefix(method, "Get") && !strings.Contains(method, "As") || method == "ParentTable" {
		return // a nested table, or one out of a table set
	}
	if onShared && method != "CopyDeep" && hasTableCol(x) {
		if len(cl.views) < 4 {
			cl.views = append(cl.views, x)
		}
		return
	}
	if len(cl.own) < 6 {
		cl.own = append(cl.own, x)
	}
}

func (cl *concClient) addSet(s *gt.TableSet, err error) string {
	if err != nil {
		return renderAny(err)
	}
	r := renderSet(s)
	if s != nil && len(cl.sets) < 4 {
		cl.sets = append(cl.sets, s)
	}
	return r
}

func (cl *concClient) addTable(t *gt.Table, err error) string {
	if err != nil {
		return renderAny(err)
	}
	cl.got(t, "", false)
	return renderTable(t)
}

func walkText(t *gt.Table, s *gt.TableSet, deep bool) string {
	var b strings.Builder
	vt := func(x *gt.Table) error { fmt.Fprintf(&b, "T %s;", x.Name()); return nil }
	vr := func(r gt.Row) error { fmt.Fprintf(&b, "R %s;", renderAny(r)); return nil }
	vc := func(deep bool, ci gt.CellInfo) error {
		fmt.Fprintf(&b, "C %s %d %d;", ci.ColName, ci.ColIndex, ci.RowIndex)
		return nil
	}
	safe := make(gt.WalkSafe)
	var err error
	if s != nil {
		ws := func(x *gt.TableSet) error { fmt.Fprintf(&b, "S %s;", x.Name()); return nil }
		err = s.Walk(deep, ws, vt, vr, vc)
	} else {
		err = t.Walk(deep, safe, vt, vr, vc)
	}
	return b.String() + renderAny(err)
}

func (cl *concClient) exec(sp *callSpec) (res string) {
	p, _ := Try(func() {
		switch sp.kind {
		case "table":
			t := oneOf(cl.own, sp.recv)
			if len(cl.views) > 0 && isRead(sp.method) && sp.recv>>40%3 == 0 {
				t = oneOf(cl.views, sp.recv)
				res = cl.invoke(reflect.ValueOf(t), sp, t, nil, true)
				return
			}
			res = cl.invoke(reflect.ValueOf(t), sp, t, nil, false)
			if len(cl.shared) == 0 || !hasTableCol(t) {
				res += " -> " + renderTable(t)
			}
		case "shared":
			t := oneOf(cl.shared, sp.recv)
			res = cl.invoke(reflect.ValueOf(t), sp, t, nil, true)
		case "set":
			s := oneOf(cl.sets, sp.recv)
			res = cl.invoke(reflect.ValueOf(s), sp, nil, s, false)
			res += " -> " + renderSet(s)
		case "sharedset":
			s := oneOf(cl.ssets, sp.recv)
			res = cl.invoke(reflect.ValueOf(s), sp, nil, s, true)
		case "audit":
			for _, t := range cl.shared {
				res += renderTable(t) + "\n"
			}
			for _, s := range cl.ssets {
				res += renderSet(s) + "\n"
			}
		case "walk":
			if sp.args[0].u%4 == 0 {
				res = walkText(nil, oneOf(cl.sets, sp.recv), sp.args[1].u%2 == 0)
			} else {
				res = walkText(oneOf(cl.own, sp.recv), nil, sp.args[1].u%2 == 0)
			}
		case "sharedwalk":
			if sp.args[0].u%4 == 0 {
				res = walkText(nil, oneOf(cl.ssets, sp.recv), sp.args[1].u%2 == 0)
			} else {
				res = walkText(oneOf(cl.shared, sp.recv), nil, sp.args[1].u%2 == 0)
			}
		case "circle":
			t, err := gt.NewTable("circle")
			if err != nil {
				res = renderAny(err)
				return
			}
			t.AppendCol("c", "*Table")
			t.AppendRow()
			e1 := t.SetTable("c", 0, t)
			ok, e2 := t.IsValidTableNesting()
			has, e3 := t.HasCircularReference()
			res = fmt.Sprint(e1, ok, e2, has, e3, walkText(t, nil, true))
		case "parse":
			switch sp.args[0].u % 8 {
			case 2:
				res = cl.addTable(gt.NewTableFromStringByTableName(sp.text, sp.args[2].s))
			case 3:
				res = cl.addTable(gt.NewTableFromStringMustMake(sp.text), nil)
			case 0:
				res = cl.addTable(gt.NewTableFromString(sp.text))
			case 1:
				res = cl.addTable(gt.NewTableFromStringByTableIndex(sp.text, int(sp.args[1].u%3)))
			default:
				res = cl.addSet(gt.NewTableSetFromString(sp.text))
			}
		case "save":
			path := cl.file(sp)
			schedFiles(1)
			defer schedFiles(-1)
			mode := []os.FileMode{0, 0, 0o600, 0o644}[sp.args[0].u>>20%4]
			ts, ss := cl.own, cl.sets
			if len(cl.shared) > 0 && sp.args[0].u>>30%4 > 0 {
				ts, ss = cl.shared, cl.ssets
			}
			var err error
			if sp.args[1].u%2 == 0 {
				err = oneOf(ts, sp.recv).WriteFile(path, mode)
			} else {
				err = oneOf(ss, sp.recv).WriteFile(path, mode)
			}
			b, e := os.ReadFile(path)
			res = fmt.Sprint(err, e != nil, "\n", string(b))
		case "load":
			path := cl.file(sp)
			schedFiles(1)
			defer schedFiles(-1)
			if sp.args[0].u>>20%8 > 0 {
				os.WriteFile(path, []byte(sp.text), 0o644)
			}
			switch sp.args[1].u % 4 {
			case 0:
				res = cl.addTable(gt.NewTableFromFile(path))
			case 1:
				res = cl.addTable(gt.NewTableFromFileByTableName(path, sp.args[2].s))
			default:
				res = cl.addSet(gt.NewTableSetFromFile(path))
			}
		case "json":
			if sp.method == "one" {
				res = cl.addTable(gt.NewTableFromJSON(sp.text))
			} else if sp.args[0].u%3 == 0 {
				res = cl.addTable(gt.NewTableFromJSONByTableName(sp.text, sp.args[2].s))
			} else {
				res = cl.addSet(gt.NewTableSetFromJSON(sp.text))
			}
		case "yaml":
			res = cl.addSet(gt.NewTableSetFromYAML(sp.text))
		case "gob":
			if sp.method == "one" {
				if sp.args[0].u%3 == 0 {
					res = cl.addTable(gt.GobDecodeTable([]byte(sp.text)))
				} else {
					res = cl.addTable(gt.NewTableFromGob([]byte(sp.text)))
				}
			} else {
				bufs := make([]bytes.Buffer, len(sp.bufs))
				for i := range bufs {
					bufs[i].WriteString(sp.bufs[i])
				}
				res = cl.addSet(gt.NewTableSetFromGob(bufs))
			}
		case "new":
			cols, types := []string{}, []string{}
			for i := range sp.args {
				cols = append(cols, sp.args[i].s)
				types = append(types, allTypes[sp.args[i].u%uint64(len(allTypes))])
			}
			res = cl.addTable(gt.NewTableFromMetadata(sp.args[0].s, cols, types))
		case "misc":
			a := sp.args
			switch a[0].u % 8 {
			case 0:
				ok, err := gt.IsValidColName(a[1].s)
				res = fmt.Sprint(ok, err)
			case 1:
				ok, err := gt.IsValidTableName(a[1].s)
				res = fmt.Sprint(ok, err)
			case 2:
				ok, err := gt.IsValidColType(a[1].s)
				res = fmt.Sprint(ok, err, gt.TypesList())
				for _, t := range allTypes {
					res += fmt.Sprint(gt.IsNumericColType(t), gt.IsSliceColType(t), gt.IsTableColType(t))
				}
			case 3:
				ok, err := gt.Uint8SliceEquals([]byte(a[1].s), []byte(a[2].s))
				res = fmt.Sprint(ok, err, gt.UtilRound(float64(a[1].u%100000)/1000, int(a[2].u%4)))
			case 4:
				res = fmt.Sprint(gt.UtilFormatSource("package x\nfunc f( ) {" + a[1].s + "}"))
			case 5:
				res = fmt.Sprint(gt.UtilFuncName(), gt.UtilFuncSource(), gt.UtilFuncCaller(), gt.UtilFuncNameNoParens(), gt.UtilFuncNameFull())
			case 6:
				res = fmt.Sprint(gt.SearchFirst(100, func(i int) bool { return i >= int(a[1].u%110) }), gt.SearchLast(100, func(i int) bool { return i <= int(a[1].u%110) }))
			case 7:
				e := gt.NewCircRefError(oneOf(cl.own, a[1].u), oneOf(cl.own, a[2].u), a[1].s)
				res = e.Error() + fmt.Sprint(gt.HasCircRefError(e))
			}
		}
	})
	if p != nil {
		res += fmt.Sprintf("panic: %v", p)
	}
	if cl.dir != "" && strings.Contains(res, cl.dir) {
		res = strings.ReplaceAll(res, cl.dir, "DIR")
	}
	return scrub(res)
}

// file is one of the client's own files.
func (cl *concClient) file(sp *callSpec) string {
	return filepath.Join(cl.dir, fmt.Sprintf("f%d", sp.args[0].u%3))
}

// home gives the client an empty directory.
func (cl *concClient) home() {
	if err := os.RemoveAll(cl.dir); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.MkdirAll(cl.dir, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
}

// run is a client's life.
func (cl *concClient) run(enter func(), call func(k int)) {
	enter()
	for _, a := range cl.start {
		t, err := build(a)
		if err != nil {
			t = gt.NewNilTable()
		}
		cl.own = append(cl.own, t)
	}
	s, _ := gt.NewTableSet("own")
	cl.sets = []*gt.TableSet{s}
	for _, t := range cl.own {
		s.AppendTable(t)
	}
	for k := range cl.script {
		call(k)
		cl.out = append(cl.out, cl.exec(&cl.script[k]))
	}
	end := ""
	for _, t := range cl.own {
		end += renderTable(t) + "\n"
	}
	cl.out = append(cl.out, scrub(end))
}

func (cl *concClient) fresh(shared []*gt.Table, ssets []*gt.TableSet) *concClient {
	f := &concClient{me: cl.me, start: cl.start, script: cl.script, shared: shared, ssets: ssets, dir: cl.dir}
	for i := range f.script {
		if f.script[i].kind == "save" || f.script[i].kind == "load" {
			f.home()
			break
		}
	}
	return f
}

func (cl *concClient) callName(k int) string {
	if k < 0 || k >= len(cl.script) {
		return "start/end"
	}
	return cl.script[k].name()
}

func (sp *callSpec) name() string {
	n := sp.kind
	if sp.method != "" {
		n += "." + sp.method
	}
	return n
}

func runConc(c *Ctx, reading bool) {
	concPools()
	gobWarm()
	now := int64(1600000000e9)
	time.SimClock = func() (int64, int32) { return now / 1e9, int32(now % 1e9) }
	c.Defer(func() { time.SimClock = nil })
	gt.SimYield = schedYield
	sync.SimLockWait = schedLock
	c.Defer(func() { schedOff() })

	runtime.SimFixRand(c.U(0))
	nc := 2 + c.N(3)
	wordy := c.N(4) == 3 // long strings
	keyed := func(a *Abs) {
		if len(a.Cols) == 0 {
			return
		}
		for _, k := range permutation(c, len(a.Cols)) {
			if sortable(a.Types[k]) && len(a.Keys) < 2 && c.N(2) == 0 {
				a.Keys = append(a.Keys, Key{a.Cols[k], a.Types[k], c.N(3) == 0})
			}
		}
	}
	var shared []*gt.Table
	var ssets []*gt.TableSet
	var sharedBefore string
	var sharedAbs []*Abs
	var sharedSort []bool
	// fresh builds the shared tables; nothing has read them yet.
	fresh := func(look bool) {
		shared = nil
		for i, a := range sharedAbs {
			var t *gt.Table
			var err error
			if look {
				t = mustBuild(c, a)
			} else if p, _ := Try(func() { t, err = build(a) }); p != nil || err != nil {
				c.Abandon("cannot build the starting table")
			}
			if sharedSort[i] {
				t.Sort()
			}
			shared = append(shared, t)
		}
		s, err := gt.NewTableSet("shared")
		if err != nil {
			c.Abandon("NewTableSet")
		}
		for _, t := range shared {
			s.AppendTable(t)
		}
		ssets = []*gt.TableSet{s}
	}
	if reading {
		n := 1 + c.N(3)
		for i := 0; i < n; i++ {
			a := genAbs(c, fmt.Sprintf("Shared%d", i), genOpt{nest: 1, wordy: wordy}, seldomWide(c, 5), oftenSmall(c, 6), concNest)
			keyed(a)
			a.Struct = c.N(4) == 3
			sharedAbs = append(sharedAbs, a)
			sharedSort = append(sharedSort, len(a.Keys) > 0 && c.N(3) > 0)
		}
	}
	base := filepath.Join(os.Getenv("SIM_SCRATCH"), fmt.Sprintf("conc-%d", os.Getpid()))
	c.Defer(func() { os.RemoveAll(base) })
	// The turn may change before every system call on a file.
	syscall.SimOpen = func(string, int) (error, bool) { schedYield(); return nil, false }
	syscall.SimRead = func(int, []byte) (int, error, bool) { schedYield(); return 0, nil, false }
	syscall.SimWrite = func(int, []byte) (int, error, bool) { schedYield(); return 0, nil, false }
	c.Defer(func() { syscall.SimOpen, syscall.SimRead, syscall.SimWrite = nil, nil, nil })
	var clients []*concClient
	for i := 0; i < nc; i++ {
		cl := &concClient{me: i, dir: filepath.Join(base, fmt.Sprintf("c%d", i))}
		n := 1 + c.N(2)
		for k := 0; k < n; k++ {
			a := genAbs(c, fmt.Sprintf("T%d", k), genOpt{nest: 1, wordy: wordy}, seldomWide(c, 4), oftenSmall(c, 5), concNest)
			keyed(a)
			a.Struct = c.N(4) == 3
			cl.start = append(cl.start, a)
		}
		clients = append(clients, cl)
	}
	c.Plan(4, 14)
	for c.Step() {
		cl := clients[c.N(nc)]
		if reading && cl.me == nc-1 && c.N(3) > 0 {
			cl.script = append(cl.script, callSpec{kind: "audit"})
			continue
		}
		var sp callSpec
		if said := clients[c.N(nc)].script; len(said) > 0 && c.N(4) == 3 { // what someone else does too
			sp = pick(c, said)
		} else {
			sp = genCall(c, reading)
		}
		c.Ev("client %d: %s", cl.me, sp.name())
		c.Probe(sp.name())
		cl.script = append(cl.script, sp)
	}

	// Alone, one after another. In every other run that comes after the clients
	// ran together, so that what the library fills in the first time it is asked
	// (a cache, a flag in a table) is filled while they do.
	cold := c.N(2) == 1
	var want, got []*concClient
	total := uint64(0)
	alone := func() {
		if reading {
			fresh(true)
			sharedBefore = renderSet(ssets[0])
		}
		schedReset(nc, true)
		for _, cl := range clients {
			f := cl.fresh(shared, ssets)
			f.run(func() {}, func(int) {})
			want = append(want, f)
		}
		total = schedCount()
		schedOff()
		if reading {
			if after := renderSet(ssets[0]); after != sharedBefore {
				c.Fail("reading changed the table", "after the readers ran one after another the shared tables differ: %s\nscripts:\n%s", firstDiff(sharedBefore, after), describeClients(want))
			}
		}
	}
	if !cold {
		alone()
	} else {
		total = 100 << c.N(9)
	}

	// Together.
	if reading {
		fresh(false)
	}
	schedReset(nc, false)
	var plan []switchPoint
	pace := uint64(0)
	paceOff := uint64(0)
	mode := c.N(4)
	if mode <= 1 {
		n := 1 + c.N(6)
		if mode == 1 {
			n = 5 + c.N(60)
		}
		for i := 0; i < n; i++ {
			plan = append(plan, switchPoint{c.U(total + 1), c.N(nc)})
		}
		sort.SliceStable(plan, func(i, j int) bool { return plan[i].at < plan[j].at })
	} else {
		pace = 1 + c.U(uint64([]int{0, 0, 30, 400}[mode]))
		paceOff = c.U(1000)
	}
	first := c.N(nc)
	schedPlan(plan, pace, paceOff, first)
	errs := raceErrors()
	old := debug.SetGCPercent(-1)
	var wg sync.WaitGroup
	for _, cl := range clients {
		got = append(got, cl.fresh(shared, ssets))
	}
	for _, f := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			me := f.me
			f.run(func() { schedEnter(me) }, func(k int) { schedCall(me, k) })
			schedLeave(me)
		}()
	}
	wg.Wait()
	debug.SetGCPercent(old)
	sharedTogether := ssets
	nsw, log, stolen, locked, cnt := schedResult()
	schedOff()
	if cold {
		alone()
	}

	c.Fault("preemption in the middle of a call")
	c.Faults["preemption in the middle of a call"] += int64(nsw) - 1
	if locked > 0 {
		c.Faults["client finds a lock taken"] += int64(locked)
	}
	if stolen > 0 {
		c.Faults["turn taken from a client blocked on a lock"] += int64(stolen)
	}
	c.Ops += int64(cnt)
	h := uint64(17)
	for _, r := range log {
		a, b := clients[r.from].callName(r.call), clients[r.to].callName(r.tcal)
		c.State(hashStr(hashStr(3, a), b))
		h = mix(h, r.at<<8^uint64(r.from)<<4^uint64(r.to))
	}
	c.Ev("together: %d yields, %d switches, mode %d, order %x", cnt, nsw, mode, h)
	if nsw > nc {
		c.Nontriv = true
	}
	for _, f := range got {
		for _, o := range f.out {
			c.Ev("%s", o)
			switch {
			case strings.HasPrefix(o, "error") || strings.Contains(o, "| error") || strings.Contains(o, "error "):
				c.Probe("result: an error")
			case strings.Contains(o, "panic: "):
				c.Probe("result: a panic")
			default:
				c.Probe("result: a value")
			}
		}
	}
	if n := raceErrors(); n != errs {
		sig, text := raceReport()
		c.Fail("data race "+sig, "the race detector reports %d race(s) between clients that %s\n%s\nscripts:\n%s", n-errs, map[bool]string{true: "only read the shared tables", false: "share no table"}[reading], text, describeClients(got))
	}
	for i, f := range got {
		for k := range f.out {
			if k < len(want[i].out) && f.out[k] == want[i].out[k] {
				continue
			}
			w := "(nothing)"
			if k < len(want[i].out) {
				w = want[i].out[k]
			}
			c.Fail("result depends on the other clients: "+clients[i].callName(k), "client %d, call %d (%s): %s\nalone:    %s\ntogether: %s\nscripts:\n%s", i, k, clients[i].callName(k), firstDiff(w, f.out[k]), head(w, 1500), head(f.out[k], 1500), describeClients(got))
		}
	}
	if reading {
		if after := renderSet(sharedTogether[0]); after != sharedBefore {
			c.Fail("reading changed the table", "after the readers ran together the shared tables differ: %s\nscripts:\n%s", firstDiff(sharedBefore, after), describeClients(got))
		}
	}
}

func describeClients(cls []*concClient) string {
	var b strings.Builder
	for _, cl := range cls {
		for k := range cl.script {
			sp := &cl.script[k]
			fmt.Fprintf(&b, "client %d call %d: %s", cl.me, k, sp.name())
			if sp.text != "" {
				fmt.Fprintf(&b, " of %q", head(sp.text, 400))
			}
			if k < len(cl.out) {
				fmt.Fprintf(&b, " -> %s", head(cl.out[k], 300))
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

//go:norace
func schedOff() { sch.on = false }

//go:norace
func schedCount() uint64 { return sch.count }

//go:norace
func schedPlan(plan []switchPoint, pace, off uint64, first int) {
	sch.plan, sch.pace, sch.paceOff, sch.turn = plan, pace, off, first
}

//go:norace
func schedResult() (n int, log []switchRec, stolen, locked int, count uint64) {
	n = sch.logN
	k := n
	if k > len(sch.log) {
		k = len(sch.log)
	}
	return n, append([]switchRec{}, sch.log[:k]...), sch.stolen, sch.locked, sch.count
}

var raceLogPos int

// raceReport reads what the race detector wrote last.
func raceReport() (sig, text string) {
	b, _ := os.ReadFile(fmt.Sprintf("%s/race.%d", os.Getenv("SIM_SCRATCH"), os.Getpid()))
	if raceLogPos <= len(b) {
		text = string(b[raceLogPos:])
	}
	raceLogPos = len(b)
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		text = text[i:]
	}
	if i := strings.Index(text, "\n=========="); i >= 0 {
		text = text[:i]
	}
	// The library function innermost in each of the two accesses.
	var fns []string
	for _, block := range strings.Split(text, "\n\n") {
		if strings.HasPrefix(block, "Goroutine") {
			continue
		}
		for _, l := range strings.Split(block, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/urban-wombat/gotables.") {
				fns = append(fns, strings.TrimPrefix(l, "github.com/urban-wombat/gotables."))
				break
			}
		}
	}
	sort.Strings(fns)
	if len(text) > 6000 {
		text = text[:6000]
	}
	return "between " + strings.Join(fns, " and "), text
}

func init() {
	for _, p := range []struct {
		id      string
		reading bool
	}{{"P12", false}, {"P13", true}} {
		reading := p.reading
		rule := "2-4 clients with their own tables"
		if reading {
			rule = "2-4 readers of the same tables"
		}
		register(&PropDef{ID: p.id, Mode: "race", Quick: map[bool]int{false: 12000, true: 20000}[reading], Thorough: 600000, Batch: 250,
			Run:  func(c *Ctx) { runConc(c, reading) },
			Rule: rule + "; a run's clients run alone and then together, switched at seeded statements of the library",
			Real: "the whole library, the Go race detector, real goroutines",
			Stub: "the choice of which goroutine runs (statement by statement), the clock",
			Assume: []string{
				"switches happen at statement boundaries of the library; a race inside one statement is left to the race detector",
			}})
	}
}
