package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if out, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(out)
			time.AfterFunc(40*time.Second, pprof.StopCPUProfile)
		}
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: analyzer check <id> <evidence file> | dump <function>... | list | all <dir>")
		os.Exit(2)
	}
	w, err := Load(repo)
	switch os.Args[1] {
	case "check":
		os.Exit(checkCmd(w, os.Args[2], os.Args[3], err))
	case "all":
		bad := 0
		var ids []string
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			if checkCmd(w, id, os.Args[2]+"/"+id+".json", err) != 0 {
				bad++
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "dump":
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		dumpCmd(w, os.Args[2:])
	}
}
