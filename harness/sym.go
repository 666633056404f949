// Package main holds the harnesses of the solver-based checks. The engine in
// /verif/engine executes the harness functions and the real library code
// symbolically; the sym* functions below are replaced by symbolic values there.
// Compiled natively the same functions read a recorded assignment, so that a
// counterexample can be replayed against the real code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"
)

type symVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    int64  `json:"v"`
}

var symInput struct {
	Harness string         `json:"harness"`
	Values  []symVal       `json:"values"`
	Tier    int            `json:"tier"`
	Params  map[string]int `json:"params"`
}
var symPos int

func symNext(name string) int64 {
	if symPos >= len(symInput.Values) {
		fmt.Println("DIVERGED no value left for " + name)
		symExit(12)
	}
	v := symInput.Values[symPos]
	if v.Name != name {
		fmt.Println("DIVERGED wanted " + name + " got " + v.Name)
		symExit(12)
	}
	symPos++
	return v.V
}

func symExit(code int) {
	symCleanup()
	os.Exit(code)
}

func symInt(name string, lo, hi int) int    { return int(symNext(name)) }
func symRune(name string, lo, hi rune) rune { return rune(symNext(name)) }
func symByte(name string, lo, hi byte) byte { return byte(symNext(name)) }
func symBool(name string) bool              { return symNext(name) != 0 }
func symChoose(name string, n int) int      { return int(symNext(name)) }
func symConcrete(x int) int                 { return x }
func symTier() int                          { return symInput.Tier }
func symSymbolic() bool                     { return false }
func symReach(label string)                 {}
func symLog(s string)                       { fmt.Fprintln(os.Stderr, strconv.Quote(s)) }
func symObserveInt(label string, i int)     { symObs(label, strconv.Itoa(i)) }
func symObserveStr(label string, s string)  { symObs(label, strconv.Quote(s)) }

func symParam(name string, def int) int {
	if v, ok := symInput.Params[name]; ok {
		return v
	}
	return def
}

func symObs(label, s string) {
	b, _ := json.Marshal(map[string]string{"label": label, "s": s})
	fmt.Println("OBS " + string(b))
}

func symAssume(b bool) {
	if !b {
		fmt.Println("ASSUME")
		symExit(11)
	}
}

func symAssert(b bool, msg string) {
	if !b {
		symFail(msg)
	}
}

func symFail(msg string) {
	fmt.Println("VIOLATED " + msg)
	symExit(10)
}

// symFmt1 formats one scalar or string with one verb.
func symFmt1(verb byte, x any) string { return fmt.Sprintf("%"+string(rune(verb)), x) }

// symYield lets the other goroutines run until they are blocked.
func symYield() { time.Sleep(3 * time.Millisecond) }

var symCleanups []func()

func symCleanup() {
	for _, f := range symCleanups {
		f()
	}
}

func main() {
	if symSymbolic() {
		return
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := json.Unmarshal(b, &symInput); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f, ok := harnesses[symInput.Harness]
	if !ok {
		fmt.Println("DIVERGED no harness " + symInput.Harness)
		os.Exit(12)
	}
	defer symCleanup()
	f()
	fmt.Println("HELD")
}

// Used by the models only.
func symLen(x any) int                       { panic("symbolic run only") }
func symSwap(x any, i, j int)                { panic("symbolic run only") }
func symAs(err error, target any) bool       { panic("symbolic run only") }
func symFmtSharp(verb byte, s string) string { panic("symbolic run only") }
