// adapter exposes the library to the checks: one JSON request per line on
// stdin, one JSON reply per line on the file descriptor given as argument (the
// library may print).
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"sync"

	sqlparser "github.com/kwilteam/kwil-db/parse/sql"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

var sentinels = []struct {
	name string
	err  error
}{
	{"syntax", utils.ErrInvalidSyntax},
	{"MultiInit", schema.ErrMultiInit},
	{"NotSupportColumnType", schema.ErrNotSupportColumnType},
	{"ActionVisibilityAlreadySet", schema.ErrActionVisibilityAlreadySet},
	{"ActionMutabilityAlreadySet", schema.ErrActionMutabilityAlreadySet},
	{"ActionAuxiliaryAlreadySet", schema.ErrActionAuxiliaryAlreadySet},
	{"AttributeNotAllow", schema.ErrAttributeNotAllow},
	{"DuplicateTable", schema.ErrDuplicateTable},
	{"DuplicateExtension", schema.ErrDuplicateExtension},
	{"DuplicateColumn", schema.ErrDuplicateColumn},
	{"DuplicateAttribute", schema.ErrDuplicateAttribute},
	{"DuplicateIndex", schema.ErrDuplicateIndex},
	{"DuplicateAction", schema.ErrDuplicateAction},
	{"DuplicateParam", schema.ErrDuplicateParam},
	{"DupFKAction", schema.ErrDupFKAction},
	{"DuplicateVariable", schema.ErrDuplicateVariable},
	{"TableNotFound", schema.ErrTableNotFound},
	{"ColumnNotFound", schema.ErrColumnNotFound},
	{"ActionNotFound", schema.ErrActionNotFound},
	{"VariableNotFound", schema.ErrVariableNotFound},
	{"ExtensionNotFound", schema.ErrExtensionNotFound},
	{"BlockVarNotFound", schema.ErrBlockVarNotFound},
}

var posRe = regexp.MustCompile(`line (\d+):(\d+) `)

// ErrInfo tells which kinds an error is, and where it points.
type ErrInfo struct {
	Msg  string   `json:"msg"`
	Cls  []string `json:"cls"`
	Line int      `json:"line"`
	Col  int      `json:"col"`
}

func errInfo(err error) *ErrInfo {
	if err == nil {
		return nil
	}
	i := &ErrInfo{Msg: err.Error(), Line: -1, Col: -1, Cls: []string{}}
	for _, s := range sentinels {
		if errors.Is(err, s.err) {
			i.Cls = append(i.Cls, s.name)
		}
	}
	if len(i.Cls) == 0 {
		i.Cls = append(i.Cls, "stmt")
	}
	if m := posRe.FindStringSubmatch(i.Msg); m != nil && i.Cls[0] == "syntax" {
		i.Line, _ = strconv.Atoi(m[1])
		i.Col, _ = strconv.Atoi(m[2])
	}
	return i
}

type Req struct {
	Op     string          `json:"op"`
	Src    string          `json:"src"`
	Raw    []byte          `json:"raw"` // base64; used instead of src if present
	Mode   string          `json:"mode"`
	Via    string          `json:"via"` // "": ParseKF with its own listener, "nil": nil listener, "Parse"
	Name   string          `json:"name"`
	Kind   string          `json:"kind"`
	Schema json.RawMessage `json:"schema"`
	Srcs   []string        `json:"srcs"`
	N      int             `json:"n"`
	Rounds int             `json:"rounds"`
	Ops    [][]string      `json:"ops"`
}

type Res struct {
	OK    bool            `json:"ok"`
	Nil   bool            `json:"nil"`
	JSON  string          `json:"json,omitempty"`
	JErr  string          `json:"jerr,omitempty"`
	Err   *ErrInfo        `json:"err,omitempty"`
	List  int             `json:"list"`
	Out   string          `json:"out,omitempty"`
	Panic string          `json:"panic,omitempty"`
	Value string          `json:"value,omitempty"`
	Ann   any             `json:"ann,omitempty"`
	Bad   []string        `json:"bad,omitempty"`
	Each  []any           `json:"each,omitempty"`
	Extra json.RawMessage `json:"extra,omitempty"`
	N     int             `json:"n"`
	Alt   []Res           `json:"alt,omitempty"` // other answers to the same source, through the other entry points
}

// sqlVerdict asks the SQL library, without Kuneiform.
func sqlVerdict(text string) (v string) {
	defer func() {
		if recover() != nil {
			v = "unknown"
		}
	}()
	t, err := sqlparser.ParseSql(text, 1, nil, false)
	if err == nil {
		_, err = t.ToSQL()
	}
	if err != nil {
		return "bad"
	}
	return "good"
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Pointer && r.IsNil()
}

func parse(src, mode, via string) (Res, *schema.Schema) {
	m := kfparser.Default
	if mode == "trace" {
		m = kfparser.Default | kfparser.Trace
	}
	if mode == "traceonly" {
		m = kfparser.Trace
	}
	if mode == "zero" {
		m = 0
	}
	if mode == "other" {
		m = kfparser.Default | kfparser.Trace<<1
	}
	var r Res
	var l *utils.ErrorListener
	if via == "" {
		l = utils.NewErrorListener()
	}
	var result interface{ ToJSON() ([]byte, error) }
	var err error
	if via == "Parse" {
		result, err = kfparser.Parse(src)
	} else {
		result, err = kfparser.ParseKF(src, l, m)
	}
	r.OK = err == nil
	r.Err = errInfo(err)
	if l != nil {
		r.List = len(l.ErrorList)
	}
	if err != nil {
		return r, nil
	}
	if isNil(result) {
		r.Nil = true
		return r, nil
	}
	b, jerr := result.ToJSON()
	if jerr != nil {
		r.JErr = jerr.Error()
	}
	r.JSON = string(b)
	s, _ := result.(*schema.Schema)
	return r, s
}

// printed is a value of a keyword type, and what it prints as, if that is something else.
func printed(v string, t fmt.Stringer) string {
	if p := t.String(); p != v {
		return v + " printed as " + p
	}
	return v
}

// parseSafe is parse, where a panic is an answer.
func parseSafe(src, mode, via string) (r Res) {
	defer func() {
		if x := recover(); x != nil {
			r = Res{Panic: fmt.Sprint(x)}
		}
	}()
	r, _ = parse(src, mode, via)
	return r
}

func sameAnswer(a, b Res) bool {
	msg := func(r Res) string {
		if r.Err == nil {
			return ""
		}
		return r.Err.Msg
	}
	return a.OK == b.OK && a.Nil == b.Nil && a.JSON == b.JSON && a.JErr == b.JErr && msg(a) == msg(b) && (a.Panic == "") == (b.Panic == "")
}

// captured runs f with os.Stdout redirected and returns what was printed.
func captured(f func()) string {
	old := os.Stdout
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	done := make(chan struct{})
	go func() { _, _ = io.Copy(&buf, pr); close(done) }()
	os.Stdout = pw
	func() {
		defer func() { os.Stdout = old; pw.Close() }()
		f()
	}()
	<-done
	pr.Close()
	return buf.String()
}

func handle(q Req) (r Res) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r = Res{Panic: fmt.Sprintf("%v\n%s", x, buf)}
		}
	}()
	src := q.Src
	if q.Raw != nil {
		src = string(q.Raw)
	}
	switch q.Op {
	case "parse":
		if q.Mode == "trace" || q.Mode == "traceonly" || q.Kind == "capture" {
			r.Out = captured(func() { out := r.Out; r, _ = parse(src, q.Mode, q.Via); r.Out = out })
			return r
		}
		r, _ = parse(src, q.Mode, q.Via)
		if q.Kind == "both" {
			for _, via := range []string{"Parse", "nil"} {
				if x := parseSafe(src, q.Mode, via); !sameAnswer(r, x) {
					x.Value = via
					r.Alt = append(r.Alt, x)
				}
			}
		}
	case "ann":
		a, err := utils.ParseAnnotation(q.Src)
		r.OK, r.Err = err == nil, errInfo(err)
		if a != nil {
			r.Ann = a
		}
	case "lookup":
		var v string
		var err error
		switch q.Kind {
		case "column":
			var t schema.ColumnType
			t, err = schema.GetColumnType(q.Name)
			v = printed(string(t), t)
		case "attribute":
			var t schema.AttributeType
			t, err = schema.GetAttributeType(q.Name)
			v = printed(string(t), t)
		case "index":
			var t schema.IndexType
			t, err = schema.GetIndexType(q.Name)
			v = printed(string(t), t)
		}
		r.OK, r.Err, r.Value = err == nil, errInfo(err), v
	case "sql":
		for _, x := range q.Srcs {
			r.Bad = append(r.Bad, sqlVerdict(x))
		}
		r.OK = true
	case "validate":
		var s, before schema.Schema
		if err := json.Unmarshal(q.Schema, &s); err != nil {
			r.Bad = append(r.Bad, "cannot decode: "+err.Error())
			return r
		}
		_ = json.Unmarshal(q.Schema, &before)
		err := s.Accept(schema.NewCtxValidator())
		r.OK, r.Err = err == nil, errInfo(err)
		if !reflect.DeepEqual(s, before) {
			r.Bad = append(r.Bad, "the validator changed the schema")
		}
		// a second validator sees the same
		err2 := s.Accept(schema.NewCtxValidator())
		if (err == nil) != (err2 == nil) || (err != nil && err.Error() != err2.Error()) {
			r.Bad = append(r.Bad, fmt.Sprintf("validated again: %v, then %v", err, err2))
		}
	case "artifact":
		r = artifact(src)
	case "listener":
		r = listener(q.Ops)
	case "session":
		r = session(q.Srcs, q.Ops)
	case "concurrent":
		r = concurrent(q.Srcs, q.N, q.Rounds)
	case "ping":
		r.OK = true
	}
	return r
}

// artifact checks serialisation of a parsed source: determinism, round trip, parts.
func artifact(src string) Res {
	r, s := parse(src, "", "")
	if !r.OK || s == nil {
		return r
	}
	bad := func(f string, a ...any) { r.Bad = append(r.Bad, fmt.Sprintf(f, a...)) }
	// what it holds before anything is serialised, and afterwards
	fresh, err := kfparser.ParseKF(src, nil, kfparser.Default)
	s0, _ := any(fresh).(*schema.Schema)
	if err != nil || s0 == nil {
		bad("a second compilation ends differently: %v", err)
		return r
	}
	r.Extra, _ = json.Marshal(dump(reflect.ValueOf(*s0)))
	b0, err := s0.ToJSON()
	if err != nil || string(b0) != r.JSON {
		bad("a second compilation serialises differently: %s %v", b0, err)
	}
	if x, _ := json.Marshal(dump(reflect.ValueOf(*s0))); string(x) != string(r.Extra) {
		bad("serialising changes the schema from %s to %s", r.Extra, x)
	}
	for i := 0; i < 3; i++ {
		b, err := s.ToJSON()
		if err != nil || string(b) != r.JSON {
			bad("serialising again gives something else: %s %v", b, err)
		}
	}
	r2, s2 := parse(src, "", "")
	if r2.JSON != r.JSON {
		bad("a second compilation serialises differently: %s", r2.JSON)
	}
	if !reflect.DeepEqual(s, s2) {
		bad("a second compilation differs")
	}
	var back schema.Schema
	if err := json.Unmarshal([]byte(r.JSON), &back); err != nil {
		bad("cannot decode: %v", err)
		return r
	}
	if !equalSchema(s, &back) {
		bad("decoded schema differs")
	}
	b, err := back.ToJSON()
	if err != nil || string(b) != r.JSON {
		bad("decoded schema serialises differently: %s %v", b, err)
	}
	var whole map[string]any
	if err := json.Unmarshal([]byte(r.JSON), &whole); err != nil {
		bad("not an object: %v", err)
		return r
	}
	part := func(what string, j func() ([]byte, error), in any) {
		pb, err := j()
		if err != nil {
			bad("%s does not serialise: %v", what, err)
			return
		}
		var got any
		if err := json.Unmarshal(pb, &got); err != nil {
			bad("%s serialises to invalid JSON %s", what, pb)
			return
		}
		if !reflect.DeepEqual(got, in) {
			bad("%s serialises to %s", what, pb)
		}
	}
	at := func(v any, key string, i int) any {
		m, _ := v.(map[string]any)
		l, _ := m[key].([]any)
		if i >= len(l) {
			return nil
		}
		return l[i]
	}
	for i := range s.Tables {
		t := &s.Tables[i]
		wt := at(whole, "tables", i)
		part("table", t.ToJSON, wt)
		for j := range t.Columns {
			c := &t.Columns[j]
			wc := at(wt, "columns", j)
			part("column", c.ToJSON, wc)
			for k := range c.Attributes {
				part("attribute", c.Attributes[k].ToJSON, at(wc, "attributes", k))
			}
		}
		for j := range t.Indexes {
			part("index", t.Indexes[j].ToJSON, at(wt, "indexes", j))
		}
		for j := range t.ForeignKeys {
			part("foreign key", t.ForeignKeys[j].ToJSON, at(wt, "foreign_keys", j))
		}
	}
	for i := range s.Actions {
		part("action", s.Actions[i].ToJSON, at(whole, "actions", i))
	}
	for i := range s.Extensions {
		part("extension", s.Extensions[i].ToJSON, at(whole, "extensions", i))
	}
	if x, _ := json.Marshal(dump(reflect.ValueOf(*s))); string(x) != string(r.Extra) {
		bad("serialising the parts changes the schema from %s to %s", r.Extra, x)
	}
	return r
}

// dump tells what a value holds, independently of how it is serialised.
func dump(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Struct:
		fs := []any{}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				fs = append(fs, []any{f.Name, dump(v.Field(i))})
			}
		}
		return map[string]any{"k": "struct", "t": v.Type().Name(), "f": fs}
	case reflect.Slice, reflect.Array:
		es := []any{}
		for i := 0; i < v.Len(); i++ {
			es = append(es, dump(v.Index(i)))
		}
		return map[string]any{"k": "list", "e": es}
	case reflect.String:
		return map[string]any{"k": "str", "s": v.String()}
	case reflect.Bool:
		return map[string]any{"k": "bool", "b": v.Bool()}
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return map[string]any{"k": "nil"}
		}
		return dump(v.Elem())
	}
	return map[string]any{"k": "other", "s": fmt.Sprint(v)}
}

// equalSchema compares field by field; absent and empty lists are the same.
func equalSchema(a, b *schema.Schema) bool {
	return eq(reflect.ValueOf(*a), reflect.ValueOf(*b))
}

func eq(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Struct:
		if a.Type() != b.Type() {
			return false
		}
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	default:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
}

// listener runs operations on one listener: ["add", text] and ["parse", source, mode];
// ["new", "zero"] in front asks for the zero value of the listener's type.
// After each it reports what the listener holds.
func listener(ops [][]string) (r Res) {
	l := utils.NewErrorListener()
	if len(ops) > 0 && ops[0][0] == "new" {
		if ops[0][1] == "zero" {
			l = &utils.ErrorListener{}
		}
		ops = ops[1:]
	}
	names := map[error]string{}
	for i, op := range ops {
		st := map[string]any{}
		switch op[0] {
		case "add":
			e := errors.New(op[1])
			names[e] = op[1]
			l.Add(e)
		case "parse":
			before := append([]error{}, l.ErrorList...)
			m := kfparser.Default
			if len(op) > 2 && op[2] == "trace" {
				m = kfparser.Default | kfparser.Trace
			}
			var res any
			var err error
			captured(func() { res, err = kfparser.ParseKF(op[1], l, m) })
			st["failed"] = err != nil
			st["nil"] = isNil(res)
			st["err"] = errInfo(err)
			kept := len(l.ErrorList) >= len(before)
			for k := range before {
				kept = kept && l.ErrorList[k] == before[k]
			}
			st["kept"] = kept
			if err != nil {
				st["same_msg"] = err.Error() == l.Error()
				var first error
				if len(l.ErrorList) > 0 {
					first = l.ErrorList[0]
				}
				st["first"] = first != nil && errors.Is(err, first) && errors.Unwrap(err) == first
			}
		}
		entries := []*ErrInfo{}
		self := false
		for _, e := range l.ErrorList {
			if e == error(l) || e == error(&l.ErrorList) {
				self = true
				entries = append(entries, &ErrInfo{Msg: "<the list itself>"})
				continue
			}
			var el *utils.ErrorList
			if errors.As(e, &el) && el == &l.ErrorList {
				self = true
			}
			entries = append(entries, errInfo(e))
		}
		st["self"] = self
		st["n"] = len(l.ErrorList)
		st["msg"] = l.Error()
		st["has"] = l.Err() != nil
		st["entries"] = entries
		st["i"] = i
		r.Each = append(r.Each, st)
	}
	r.OK = true
	return r
}

// scribble overwrites everything reachable from v.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Interface:
		if v.CanSet() {
			v.Set(reflect.ValueOf("scribbled"))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			v.Clear()
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// session parses the sources in order; ops[i] = [mode, via, after]: how to call, and whether
// the caller overwrites what it got. Other results are kept and looked at again at the end.
func session(srcs []string, ops [][]string) (r Res) {
	var kept []*schema.Schema
	var jsons []string
	for i, s := range srcs {
		mode, via := "", ""
		if i < len(ops) {
			mode, via = ops[i][0], ops[i][1]
		}
		var one Res
		var sc *schema.Schema
		out := captured(func() { one, sc = parse(s, mode, via) })
		if len(out) > 200 {
			out = out[:200]
		}
		one.Out = out
		r.Each = append(r.Each, one)
		if i < len(ops) && len(ops[i]) > 2 && ops[i][2] == "scribble" {
			scribble(reflect.ValueOf(sc))
			sc = nil
		}
		kept = append(kept, sc)
		jsons = append(jsons, one.JSON)
	}
	for i, sc := range kept {
		if sc == nil {
			continue
		}
		b, _ := sc.ToJSON()
		if string(b) != jsons[i] {
			r.Bad = append(r.Bad, fmt.Sprintf("schema %d was changed by later parses: %s", i, b))
		}
	}
	r.OK = true
	return r
}

// concurrent parses the sources in n goroutines, each starting elsewhere.
func concurrent(srcs []string, n, rounds int) (r Res) {
	want := make([]string, len(srcs))
	key := func(x Res) string {
		b, _ := json.Marshal(x)
		return string(b)
	}
	results := make([][]string, n)
	keep := make([][]*schema.Schema, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		results[g] = make([]string, len(srcs))
		keep[g] = make([]*schema.Schema, len(srcs))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for k := 0; k < rounds; k++ {
				for i := range srcs {
					j := (i + g*7 + k) % len(srcs)
					x, s := parse(srcs[j], []string{"", "", "trace"}[g%3], []string{"", "nil"}[g%2])
					x.List = 0
					kk := key(x)
					if g%4 == 3 {
						scribble(reflect.ValueOf(s))
						s = nil
					}
					if results[g][j] == "" {
						results[g][j] = kk
						keep[g][j] = s
					} else if results[g][j] != kk {
						results[g][j] += "\n" + kk
					}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for j, s := range srcs {
		x, _ := parse(s, "", "")
		x.List = 0
		want[j] = key(x)
		r.Each = append(r.Each, x)
		for g := 0; g < n; g++ {
			if results[g][j] != want[j] {
				r.Bad = append(r.Bad, fmt.Sprintf("source %d: concurrent %s, alone %s", j, results[g][j], want[j]))
			}
			if sc := keep[g][j]; sc != nil {
				if b, _ := sc.ToJSON(); string(b) != x.JSON {
					r.Bad = append(r.Bad, fmt.Sprintf("source %d: schema of a concurrent parse changed to %s", j, b))
				}
			}
		}
	}
	r.OK = true
	r.N = n * rounds * len(srcs)
	return r
}

func main() {
	fd := 3
	if len(os.Args) > 1 {
		fd, _ = strconv.Atoi(os.Args[1])
	}
	out := os.NewFile(uintptr(fd), "replies")
	w := bufio.NewWriter(out)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	for {
		var q Req
		if err := dec.Decode(&q); err != nil {
			if err != io.EOF {
				fmt.Fprintln(os.Stderr, "adapter:", err)
				os.Exit(9)
			}
			return
		}
		r := handle(q)
		if err := enc.Encode(r); err != nil {
			fmt.Fprintln(os.Stderr, "adapter:", err)
			os.Exit(9)
		}
		w.Flush()
	}
}
