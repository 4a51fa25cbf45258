package main

import (
	"fmt"
	"io"
	"math/big"
	"os"
	"sort"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness run|replay|worker|prog")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		parentMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "worker":
		workerMain(os.Args[2:])
	case "conc":
		concMain(os.Args[2:])
	case "prog":
		progMain(os.Args[2:])
	}
}

// progMain compiles and solves one source text (standard input) for the given inputs, for manual experiments
func progMain(args []string) {
	src, _ := io.ReadAll(os.Stdin)
	var in []*big.Int
	for _, a := range args {
		v, _ := new(big.Int).SetString(a, 10)
		in = append(in, v)
	}
	c, err := compile(string(src), false)
	if err != nil {
		fmt.Println("COMPILE", strings.Join(strings.Split(err.Error(), "\n")[:1], ""))
		return
	}
	fmt.Println("inputs", c.inputs, "pub", c.prog.PublicInputs, "gates", c.dense.NumberOfGates, "wl", c.dense.WitnessLength)
	for i := range c.dense.L {
		fmt.Println(showInts(c.dense.L[i]), showInts(c.dense.R[i]), showInts(c.dense.E[i]), showInts(c.dense.O[i]))
	}
	w, rej, crash := c.solveDense(in)
	fmt.Println("dense", showInts(w), rej, crash)
	w, rej, crash = c.solveSparse(in)
	fmt.Println("sparse", showInts(w), rej, crash)
}
