package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A local variable whose address is only read, written and captured by plain closures is a cell of its own:
// it shares no heap map with the objects of its type.

const cellMark = "~"

func (ex *Exec) isCell(x *ssa.Alloc) bool {
	if r, ok := ex.cellMemo[x]; ok {
		return r
	}
	t := deref(x.Type())
	r := !hasArray(t) && onlyAccessed(x, 0)
	ex.cellMemo[x] = r
	return r
}

func hasArray(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func onlyAccessed(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 6 {
		return false
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if u.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyAccessed(u, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			for _, w := range *u.Referrers() {
				if _, ok := w.(*ssa.Go); ok {
					return false
				}
			}
			fn := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b == v && !onlyAccessed(fn.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// cellRoot names the heap map of a cell.
func (ex *Exec) cellRoot(fr *frame, x *ssa.Alloc, root string) string {
	if fr.cells == nil {
		fr.cells = map[*ssa.Alloc]int{}
	}
	n, ok := fr.cells[x]
	if !ok {
		ex.ncells++
		n = ex.ncells
		fr.cells[x] = n
	}
	return root + cellMark + itoa(n)
}

func isCellKey(k string) bool { return strings.Contains(k, cellMark) }
