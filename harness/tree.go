// Enumeration of syntax trees by reflection, independent of astutils.Walk
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
)

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// fieldNodes lists the nodes in the fields of a node, in field order
func fieldNodes(n ast.Node) (out []ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	v = v.Elem()
	add := func(f reflect.Value) {
		if (f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface) && !f.IsNil() && f.Type().Implements(nodeType) {
			out = append(out, f.Interface().(ast.Node))
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).PkgPath != "" { // not exported
			continue
		}
		if f.Kind() == reflect.Slice {
			for j := 0; j < f.Len(); j++ {
				add(f.Index(j))
			}
			continue
		}
		add(f)
	}
	return
}

// kids lists the nodes inside a node in source order
func kids(n ast.Node) []ast.Node {
	out := fieldNodes(n)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Start().Offset < out[j].Start().Offset })
	return out
}

// allNodes lists a tree in source order, parents first
func allNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	var rec func(n ast.Node)
	rec = func(n ast.Node) {
		out = append(out, n)
		for _, k := range kids(n) {
			rec(k)
		}
	}
	rec(n)
	return out
}

// deepDump renders every field of a tree
func deepDump(n ast.Node) string {
	var sb strings.Builder
	var rec func(v reflect.Value, depth int)
	rec = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			rec(v.Elem(), depth+1)
		case reflect.Struct:
			sb.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), depth+1)
				sb.WriteByte(',')
			}
			sb.WriteByte('}')
		case reflect.Slice:
			sb.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), depth+1)
				sb.WriteByte(';')
			}
			sb.WriteByte(']')
		case reflect.String:
			fmt.Fprintf(&sb, "%q", v.String())
		default:
			fmt.Fprintf(&sb, "%v", v)
		}
	}
	rec(reflect.ValueOf(n), 0)
	return sb.String()
}

func samePos(a, b token.Position) bool {
	return a.Offset == b.Offset && a.Line == b.Line && a.Column == b.Column
}
