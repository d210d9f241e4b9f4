package main

import (
	"flag"
	"os"
)

func vResetFlags() {
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ContinueOnError)
}
