package main

import (
	"fmt"
	"os"
)

var helpers = map[string]func(args []string){}

func runHelper(name string, args []string) {
	h := helpers[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "unknown helper", name)
		os.Exit(2)
	}
	h(args)
}
