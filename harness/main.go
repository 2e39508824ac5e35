// The driver exercises mmdet/mcrypto through its public API and records what it did and what came back.
// usage: drv CHECK -out TRACE [-in SCENARIOS] [-seed N] [-tier quick|thorough]
package main

import (
	"flag"
	"fmt"
	"os"
)

type Ctx struct {
	In, Dir string
	Seed    int64
	Quick   bool
	Out     *Out
	Rng     *Rng
}

var drivers = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 2 || drivers[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: drv CHECK -out TRACE ...")
		os.Exit(3)
	}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	dir := fs.String("dir", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(os.Args[2:])
	c := &Ctx{In: *in, Dir: *dir, Seed: *seed, Quick: *tier != "thorough", Out: NewOut(*out), Rng: NewRng(*seed)}
	drivers[os.Args[1]](c)
	c.Out.Close()
}
