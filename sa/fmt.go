package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaFunc = ssa.Function

func (w *World) fmtEvent(e *Event) string {
	p := ""
	if e.Instr != nil {
		p = w.Pos(e.Instr.Pos())
	}
	ind := strings.Repeat("  ", e.Depth)
	switch e.Kind {
	case "branch":
		return fmt.Sprintf("%s%s branch %v = %v", ind, p, e.Cond, e.Taken)
	case "store":
		return fmt.Sprintf("%s%s %v := %v", ind, p, e.Addr, e.Val)
	case "leave", "ret":
		return fmt.Sprintf("%s%s %s %s %v", ind, p, e.Kind, e.Name, e.Rets)
	case "select":
		return fmt.Sprintf("%s%s select %s case %d ok=%v block=%v %v %v res=%v", ind, p, e.Name, e.N, e.Taken, e.Block, e.Addr, e.Val, e.Res)
	}
	return fmt.Sprintf("%s%s %s %s %v addr=%v val=%v -> %v", ind, p, e.Kind, e.Name, e.Args, e.Addr, e.Val, e.Res)
}
