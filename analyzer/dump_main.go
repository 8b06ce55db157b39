package main

import (
	"fmt"
	"go/types"
	"os"
)

func dumpCmd(w *World, names []string) {
	for _, n := range names {
		fn := w.Fn(n)
		if fn == nil {
			fmt.Println("no function", n)
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abort); ok {
						fmt.Println("ABORT", a.msg)
						return
					}
					panic(r)
				}
			}()
			cfg := Config{Accesses: os.Getenv("ACC") != ""}
			if o := os.Getenv("OPAQUE"); o != "" {
				cfg.OpaqueIface = func(n *types.Named) bool {
					return o == "storages" && storages(n) || o == "namespaces" && (storages(n) || n.Obj().Name() == "Namespace")
				}
			}
			if os.Getenv("OPAQUE") == "helpers" {
				cfg.OpaqueFn = listHelper
			}
			in := NewInterp(w, cfg)
			outs := in.Run(fn, nil)
			fmt.Printf("=== %s: %d paths, %d steps\n", fn, len(outs), in.steps)
			for i, o := range outs {
				fmt.Printf("--- path %d end=%q\n", i, o.end)
				for _, f := range o.st.factList() {
					fmt.Println("   fact", f)
				}
				for _, e := range o.st.events() {
					fmt.Println("   ", w.pos(e.Pos), e)
				}
				for _, r := range o.rets {
					fmt.Println("   ret", r.Key())
					if q, _ := in.seqOf(o.st, r); len(q.Segs) > 0 {
						fmt.Println("     contents", q.Key())
					}
				}
				if os.Getenv("HEAP") != "" {
					fmt.Print(o.st.dump())
				}
			}
		}()
	}
}
