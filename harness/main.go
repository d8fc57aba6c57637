package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"verifharness/mon"
	"verifharness/props"
)

func main() {
	worker := flag.Bool("worker", false, "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	only := flag.String("only", "", "")
	root := flag.String("root", "/verif", "")
	israce := flag.Bool("israce", false, "print 1 when the property wants a -race build")
	flag.Parse()
	ck := props.Get(*prop)
	if ck == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *israce {
		fmt.Println(strconv.FormatBool(ck.Race))
		return
	}
	if *worker {
		c := mon.NewCtx(ck.ID, *tier, *seed, *out)
		c.Only = *only
		ck.Run(c)
		c.Finish()
		os.Exit(0)
	}
	os.Exit(mon.Parent(ck, *tier, *seed, *root, *only))
}
