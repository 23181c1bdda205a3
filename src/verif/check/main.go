package main

import (
	"fmt"
	"os"

	"verif/mc"
)

var checks = map[string]mc.Check{}

func register(c mc.Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check <property> quick|thorough|replay [file]")
		os.Exit(3)
	}
	if f, ok := subcommands[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	c, ok := checks[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
		os.Exit(3)
	}
	mc.Main(c, os.Args[2], os.Args[3:])
}

var subcommands = map[string]func([]string){}
