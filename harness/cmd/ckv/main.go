// ckv runs one check.
package main

import (
	"flag"
	"os"
	"testing"

	"ckverif/props"
	"ckverif/vk"
)

func main() {
	if h := os.Getenv("CKV_HELPER"); h != "" {
		os.Exit(props.Helper(h))
	}
	testing.Init() // rapid asks for testing.Short
	_ = flag.CommandLine.Parse(nil)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	os.Exit(vk.Main(os.Args[1:], []string{exe}))
}
