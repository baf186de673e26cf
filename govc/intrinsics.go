package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, fr *Frame, st *State, args []Value, c *ssa.CallCommon, pos token.Pos) Value

var intrinsics = map[string]intrinsic{}

func declareClass(name, cls string) {
	f := strFacts[name]
	if n := strings.TrimSuffix(cls, "+"); n != cls { // never empty
		cls, f.min = n, 1
	}
	f.cls = namedClass(cls)
	strFacts[name] = f
}
func namedClass(s string) Class {
	c := classAny
	switch s {
	case "noLF":
		l := classOfLit("\n")
		return c.inter(l.not())
	case "noComma":
		return c.inter(classOfLit(",").not())
	case "noS":
		return c.inter(classOfLit("s").not())
	case "field": // text field of a line: no line feed, no field separator
		return c.inter(classOfLit("\n|").not())
	case "stat": // a decimal number
		return classOfLit("+-.").union(classDigit)
	case "idlist": // decimal numbers separated by commas
		return classOfLit(",").union(classDigit)
	case "regid":
		return classRange('A', 'Z').union(classDigit)
	case "graph": // printable ASCII without blanks
		return classRange('!', '~')
	case "any":
		return c
	}
	panic(unsup("class %s", s))
}
