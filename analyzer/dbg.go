package main

import (
	"fmt"
	"os"
)

func dbg(f string, a ...interface{}) {
	if os.Getenv("PKV_DBG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
