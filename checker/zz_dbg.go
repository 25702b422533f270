package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func debugSites(p *Program) {
	reach := p.graph().reach(p.parseEntries()...)
	for _, f := range p.allFuncsWithInit() {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s := ""
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "varargs" || ok && al.Comment == "slicelit" {
						continue
					}
					s = "index " + x.X.Type().String() + " [" + x.Index.String() + "]"
				case *ssa.Index:
					s = "index " + x.X.Type().String()
				case *ssa.Lookup:
					if !x.CommaOk {
						s = "lookup " + x.X.Type().String()
					}
				case *ssa.Slice:
					if x.Low != nil || x.High != nil {
						s = "slice " + x.X.Type().String()
					}
				case *ssa.Panic:
					s = "panic"
				case *ssa.TypeAssert:
					if !x.CommaOk {
						s = "assert " + x.AssertedType.String()
					}
				case *ssa.MapUpdate:
					s = "mapupdate"
				case *ssa.MakeSlice:
					s = "makeslice"
				case *ssa.BinOp:
					if x.Op.String() == "/" || x.Op.String() == "%" {
						s = "div"
					}
				}
				if s != "" {
					fmt.Println(reach[f], p.instrPos(in), shortFn(f), s)
				}
			}
		}
	}
}

func debugSSA(p *Program, name string) {
	for _, f := range p.allFuncsWithInit() {
		if f.Name() == name {
			fmt.Println(f.String())
			f.WriteTo(osStdout{})
		}
	}
}

type osStdout struct{}

func (osStdout) Write(b []byte) (int, error) { fmt.Print(string(b)); return len(b), nil }

var hMax = map[string]int{}

var hMaxC int

func hStepDbg(h *hRun, fn *ssa.Function) {
	if h.steps > hMax[fn.String()]+20000 || hCost > hMaxC+500000 {
		hMaxC = max(hMaxC, hCost)
		hMax[fn.String()] = h.steps
		fmt.Fprintln(os.Stderr, "STEPS", fn, h.steps, len(h.work), len(h.seen), hCost)
	}
}
