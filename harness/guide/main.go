// guide runs the code under test, compiled with coverage and comparison hooks, on one
// input after the other and tells which of them did something rare.  It decides nothing
// about right or wrong: it only helps to choose the runs that are worth judging.
package main

import (
	"bufio"
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"kfv/probe"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
)

type req struct {
	Op  string   `json:"op"`
	Src string   `json:"src"`
	Raw []byte   `json:"raw"`
	Do  []string `json:"do"`
	Dir string   `json:"dir"`
}

type res struct {
	OK     bool           `json:"ok"`
	Err    string         `json:"err,omitempty"`
	Panic  bool           `json:"panic,omitempty"`
	Rare   []uint32       `json:"rare,omitempty"`
	Counts map[uint32]int `json:"counts,omitempty"`
	Ints   []int64        `json:"ints,omitempty"`
	Strs   []string       `json:"strs,omitempty"`
}

const few = 10

var counts = map[uint32]int{}

func perform(src string, do []string) (r res) {
	defer func() {
		if recover() != nil {
			r.Panic = true
		}
	}()
	var out *schema.Schema
	for _, op := range do {
		switch op {
		case "parse":
			s, err := kfparser.Parse(src)
			r.OK = err == nil
			out, _ = any(s).(*schema.Schema)
			if err != nil {
				r.Err = err.Error()
			}
		case "trace":
			_, _ = kfparser.ParseKF(src, nil, kfparser.Default|kfparser.Trace)
		case "listen":
			l := utils.NewErrorListener()
			_, _ = kfparser.ParseKF(src, l, kfparser.Default)
			_, _ = l.Error(), l.Unwrap()
		case "ann":
			if out != nil {
				for _, a := range out.Actions {
					for _, x := range a.Annotations {
						_, _ = utils.ParseAnnotation(x)
					}
				}
			}
		case "json":
			if out != nil {
				b, _ := out.ToJSON()
				var back schema.Schema
				if json.Unmarshal(b, &back) == nil {
					_ = back.Accept(schema.NewCtxValidator())
				}
			}
		}
	}
	return r
}

func try(q req) res {
	probe.Reset()
	probe.On = true
	if q.Raw != nil {
		q.Src = string(q.Raw)
	}
	r := perform(q.Src, q.Do)
	probe.On = false
	probe.Features(func(f uint32) {
		counts[f]++
		if counts[f] <= few {
			r.Rare = append(r.Rare, f)
		}
	})
	return r
}

// vocabulary collects the constants of the code under test.
func vocabulary(dir string) (r res) {
	ints, strs := map[int64]bool{}, map[string]bool{}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == "kfgrammar" || d.Name() == ".git") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec, *ast.StructType:
				return false
			case ast.Expr:
				v := value(x)
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.Int:
					if i, ok := constant.Int64Val(v); ok {
						ints[i] = true
					}
				case constant.String:
					strs[constant.StringVal(v)] = true
				}
			}
			return true
		})
		return nil
	})
	for i := range ints {
		r.Ints = append(r.Ints, i)
	}
	for s := range strs {
		r.Strs = append(r.Strs, s)
	}
	sort.Slice(r.Ints, func(i, j int) bool { return r.Ints[i] < r.Ints[j] })
	sort.Strings(r.Strs)
	return r
}

func value(x ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := x.(type) {
	case *ast.BasicLit:
		if x.Kind == token.CHAR {
			c, _, _, err := strconv.UnquoteChar(x.Value[1:], '\'')
			if err != nil {
				return nil
			}
			return constant.MakeString(string(c))
		}
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return value(x.X)
	case *ast.BinaryExpr:
		a, b := value(x.X), value(x.Y)
		if a == nil || b == nil {
			return nil
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			n, ok := constant.Uint64Val(b)
			if !ok || n > 62 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		}
		return constant.BinaryOp(a, x.Op, b)
	}
	return nil
}

func main() {
	fd, err := strconv.Atoi(os.Args[1])
	if err != nil {
		panic(err)
	}
	out := bufio.NewWriter(os.NewFile(uintptr(fd), "replies"))
	enc := json.NewEncoder(out)
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	for {
		var q req
		if dec.Decode(&q) != nil {
			return
		}
		var r res
		switch q.Op {
		case "try":
			r = try(q)
		case "counts":
			r.Counts = counts
		case "hints":
			ints, strs := map[int64]bool{}, map[string]bool{}
			for _, v := range probe.Ints {
				ints[v] = true
			}
			for _, v := range probe.Strs {
				strs[v] = true
			}
			for v := range ints {
				r.Ints = append(r.Ints, v)
			}
			for v := range strs {
				r.Strs = append(r.Strs, v)
			}
			sort.Slice(r.Ints, func(i, j int) bool { return r.Ints[i] < r.Ints[j] })
			sort.Strings(r.Strs)
		case "vocab":
			r = vocabulary(q.Dir)
		}
		if enc.Encode(r) != nil || out.Flush() != nil {
			return
		}
	}
}
