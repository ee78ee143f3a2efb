package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

var checks = map[string]func(*Check){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mon PROPERTY")
		os.Exit(2)
	}
	p := os.Args[1]
	f, ok := checks[p]
	if !ok {
		die("no check for %s", p)
	}
	seed, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := &Check{Prop: p, Tier: envOr("VERIF_TIER", "quick"), Seed: seed, start: time.Now(),
		dist: map[string]bool{}, counts: map[string]int{}, known: loadKnown(p), kprint: map[string]bool{}}
	theCheck = c
	c.watchdog()
	defer func() {
		if e := recover(); e != nil {
			cleanup()
			panic(e)
		}
	}()
	f(c)
	rc := c.Finish()
	cleanup()
	os.Exit(rc)
}
