package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "run" {
		debugRun(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		rc := profiled(func() int { return runCheck(os.Args[2], tier) })
		os.Exit(rc)
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		for _, d := range checks {
			fmt.Printf("%s\t%s\t%s\n", d.id, d.level, d.tech)
		}
		return
	}
	fmt.Println("usage: gmv check <property> [quick|thorough] | list | run <pkg> <func>")
	os.Exit(2)
}
