package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
	_ "time/tzdata"
)

type check struct {
	rule string
	run  func(x *Ctx)
}

var checks = map[string]check{}

// setLocal makes the local time zone one that is not UTC, since nothing may depend on it.
func setLocal() {
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil || seed < 1 {
		seed = 1
	}
	locals := []string{"Europe/Rome", "America/St_Johns", "Pacific/Kiritimati", "UTC"}
	time.Local = zone(locals[(seed-1)%len(locals)])
}

func main() {
	setLocal()
	if len(os.Args) < 2 {
		fmt.Println("usage: harness ID | replay FILE")
		os.Exit(4)
	}
	if os.Args[1] == "literals" && len(os.Args) == 3 {
		printLiterals(os.Args[2])
		return
	}
	initWords(os.Getenv("VERIF_SRC"))
	if os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(4)
		}
		var f struct {
			Property string
			Case     *Case
		}
		if err := json.Unmarshal(b, &f); err != nil || f.Case == nil {
			fmt.Println("not a replay file", err)
			os.Exit(4)
		}
		r := Rec{}
		debug.SetPanicOnFault(true)
		msg := safely(monitors[f.Case.M], f.Case, &r)
		fmt.Println(describe(f.Case))
		if msg != "" {
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("held", r.classes)
		return
	}
	if os.Args[1] == "arch" {
		return // it runs
	}
	if os.Args[1] == "cold" && len(os.Args) == 4 {
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		if msg := cold(os.Args[2], seed); msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
		return
	}
	if os.Args[1] == "digests" && len(os.Args) == 7 {
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		n, _ := strconv.Atoi(os.Args[4])
		show, _ := strconv.Atoi(os.Args[6])
		digests(os.Args[2], seed, n, os.Args[5], show)
		return
	}
	if code := guidedCommand(os.Args[1:]); code >= 0 {
		os.Exit(code)
	}
	id := os.Args[1]
	ck, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(4)
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	start := time.Now()
	x := &Ctx{ID: id, Tier: tier, Seed: seed, rule: ck.rule, extra: map[string]interface{}{"words": len(words), "literals_new_to_the_code": len(hotWords) + len(hotInts)}}
	go x.watchdog()
	ck.run(x)
	os.Exit(x.Finish(start))
}
