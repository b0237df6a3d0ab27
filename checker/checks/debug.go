package checks

import (
	"fmt"
	"strings"
	"time"
)

// Debug runs one analysis and prints everything about it.
func Debug(args []string) (r string) {
	t := time.Now()
	p, err := Load(repo, "", ".", "./eventloop", "./poller", "./plugins/...", "./log")
	if err != nil {
		return err.Error()
	}
	fmt.Println(time.Since(t))
	for _, a := range args {
		x := Analyses[a]
		res := x(p)
		fmt.Println(a, time.Since(t), res.Checked, res.Counts)
		for _, k := range res.Unknown {
			fmt.Println("unknown", k)
		}
		for _, f := range res.Findings {
			fmt.Println(f.Prop, f.Rule, f.Where, f.Msg)
			fmt.Println("    " + strings.Join(f.Path, "\n    "))
		}
		for _, u := range res.Undecided {
			fmt.Println("UNDECIDED", u)
		}
	}
	return ""
}
