package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"verif/tool/checks"
	"verif/tool/engine"
	"verif/tool/mm"
)

func main() {
	debug.SetMemoryLimit(16 << 30)
	if os.Args[1] == "check" {
		if f := os.Getenv("VERIF_PROFILE"); f != "" {
			o, _ := os.Create(f)
			pprof.StartCPUProfile(o)
			checks.Execute(os.Args[2], env("REPO_DIR", "/repo"), env("VERIF_DIR", "/verif"), os.Args[3])
			pprof.StopCPUProfile()
			return
		}
		os.Exit(checks.Execute(os.Args[2], env("REPO_DIR", "/repo"), env("VERIF_DIR", "/verif"), os.Args[3]))
	}
	if os.Args[1] == "run" {
		t := time.Now()
		s, err := mm.Open("/repo")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Println("open", time.Since(t))
		files := map[string]string{}
		filepath.Walk(os.Args[3], func(p string, i os.FileInfo, err error) error {
			if strings.HasSuffix(p, ".model") {
				b, _ := os.ReadFile(p)
				r, _ := filepath.Rel(os.Args[3], p)
				files[r] = string(b)
			}
			return nil
		})
		t = time.Now()
		rs, it, err := s.Run(os.Args[2], mm.Input{Files: files, Flags: map[string]interface{}{"base": "gen/x"}})
		fmt.Println("run", time.Since(t), err)
		if it != nil {
			fmt.Println("unknown", engine.SortedKeys(it.Unknown), "havoc", engine.SortedKeys(it.Havoc))
		}
		for _, r := range rs {
			fmt.Println("exit", r.Exit, r.Crash, r.Where)
			fmt.Println(r.Stderr())
			for n, c := range r.Output(mm.OutputDir) {
				p := filepath.Join(os.Args[4], n)
				os.MkdirAll(filepath.Dir(p), 0755)
				os.WriteFile(p, []byte(c), 0644)
			}
		}
	}
}

func env(name, dflt string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return dflt
}
