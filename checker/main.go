// Command gevcheck decides the properties of gev by abstract interpretation
// of its source.
//
//	gevcheck PROPERTY [quick|thorough]    decide one property
//	gevcheck debug ANALYSIS...            print everything an analysis finds
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"gevcheck/checks"
)

func main() {
	debug.SetGCPercent(400)
	if p := os.Getenv("GEVPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(9 * time.Second); pprof.StopCPUProfile(); f.Close(); os.Exit(3) }()
	}
	if r := os.Getenv("GEVREPO"); r != "" {
		checks.SetRepo(r)
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gevcheck PROPERTY [quick|thorough]")
		os.Exit(2)
	}
	if os.Args[1] == "debug" {
		fmt.Println(checks.Debug(os.Args[2:]))
		return
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	verif := os.Getenv("GEVVERIF")
	if verif == "" {
		verif, _ = filepath.Abs(".")
	}
	os.Exit(checks.Decide(verif, os.Args[1], tier))
}
