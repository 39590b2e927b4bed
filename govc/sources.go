package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The concrete runs are allotted by what is known of the tree: sources.json
// (written with -baseline or -sources) records, for each package, a hash of its
// code without comments and the constants written in it. A package that differs
// is run for longer, and constants that are new are tried as inputs more often.
// Neither decides anything: what decides is the contract.
type sourceInfo struct {
	Hash string   `json:"hash"`
	Ints []string `json:"ints"`
	Strs []string `json:"strs"`
}

func readSource(dir string) sourceInfo {
	ints, strs := map[string]bool{}, map[string]bool{}
	h := sha256.New()
	fs, _ := filepath.Glob(filepath.Join(*repoDir, dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") || strings.HasSuffix(f, ".pb.gw.go") {
			continue
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		var b bytes.Buffer
		printer.Fprint(&b, fset, a)
		for _, w := range strings.Fields(b.String()) {
			fmt.Fprintln(h, w)
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr:
				v := evalConst(e.(ast.Expr))
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.Int:
					if u, ok := constant.Uint64Val(v); ok {
						ints[strconv.FormatUint(u, 10)] = true
					} else if i, ok := constant.Int64Val(v); ok {
						ints[strconv.FormatUint(uint64(-i), 10)] = true
					}
				case constant.String:
					if s := constant.StringVal(v); len(s) <= 64 {
						strs[s] = true
					}
				}
			}
			return true
		})
	}
	return sourceInfo{Hash: hex.EncodeToString(h.Sum(nil)[:8]), Ints: sortedKeys(ints), Strs: sortedKeys(strs)}
}

// evalConst is the value of an expression made of literals only, or nil.
func evalConst(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		if v := constant.MakeFromLiteral(e.Value, e.Kind, 0); v.Kind() != constant.Unknown {
			return v
		}
	case *ast.ParenExpr:
		return evalConst(e.X)
	case *ast.BinaryExpr:
		a, b := evalConst(e.X), evalConst(e.Y)
		if a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			s, ok := constant.Uint64Val(b)
			if !ok || s > 63 {
				return nil
			}
			return constant.Shift(a, e.Op, uint(s))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.REM:
			return constant.BinaryOp(a, e.Op, b)
		case token.QUO:
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
	}
	return nil
}

var sourceDirs = []string{".", "lnwire", "onionmsg", "rpcserver", "routes", "offers"}

func sourcesPath() string { return filepath.Join(*verifDir, "sources.json") }

func recordSources() {
	m := map[string]sourceInfo{}
	for _, d := range sourceDirs {
		m[d] = readSource(d)
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(sourcesPath(), append(b, '\n'), 0644)
}

// comparison says which packages differ from the recorded tree, which constants
// each has, and which are new in any of them.
type comparison struct {
	changed          map[string]bool
	ints             map[string][]string
	newInts, newStrs []string
}

var srcs comparison

func compareSources() comparison {
	c := comparison{changed: map[string]bool{}, ints: map[string][]string{}}
	rec := map[string]sourceInfo{}
	b, err := os.ReadFile(sourcesPath())
	known := err == nil && json.Unmarshal(b, &rec) == nil
	old := map[string]bool{}
	for _, s := range rec {
		for _, w := range s.Strs {
			old[w] = true
		}
	}
	ni, ns := map[string]bool{}, map[string]bool{}
	for _, d := range sourceDirs {
		s := readSource(d)
		c.ints[d] = s.Ints
		if !known || s.Hash == rec[d].Hash {
			continue
		}
		c.changed[d] = true
		for _, w := range s.Ints {
			// New in its package; small numbers are tried anyway.
			i := sort.SearchStrings(rec[d].Ints, w)
			if u, _ := strconv.ParseUint(w, 10, 64); u > 3 && !(i < len(rec[d].Ints) && rec[d].Ints[i] == w) {
				ni[w] = true
			}
		}
		for _, w := range s.Strs {
			if !old[w] {
				ns[w] = true
			}
		}
	}
	c.newInts, c.newStrs = sortedKeys(ni), sortedKeys(ns)
	return c
}

func jsonString(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
