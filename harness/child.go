package main

import (
	"fmt"
	"runtime/debug"
	"strconv"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
)

// runChild runs one input that may end the process.
func runChild(arg string) {
	debug.SetMaxStack(512 << 20)
	f := strings.SplitN(arg, ":", 3)
	if f[0] == "digest" {
		fmt.Println("digest " + probeDigest(f[2] == "reverse"))
		return
	}
	n, _ := strconv.Atoi(f[1])
	var err error
	if f[0] == "deepfile" {
		_, err = vimlparser.ParseFile(strings.NewReader(strings.Repeat(f[2], n)), fname, nil)
	} else {
		_, err = vimlparser.ParseExpr(strings.NewReader(strings.Repeat(f[2], n)))
	}
	fmt.Println("child done", err != nil)
}
