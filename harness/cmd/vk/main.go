// Command vk runs one check: vk <property> [--replay FILE].
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"time"

	"verif/harness/checks"
	"verif/harness/vk"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vk <property> [--replay FILE] | --child MODE ...")
		os.Exit(2)
	}
	id := os.Args[1]
	if id == "--child" {
		os.Exit(checks.Child(os.Args[2:]))
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	fn, ok := checks.All[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	var only string
	idx := -1
	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rp struct {
			Seed    uint64
			Tier    string
			Section string
			Index   int
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		seed, tier, only, idx = rp.Seed, rp.Tier, rp.Section, rp.Index
	}
	c := vk.New(id, tier, seed, root)
	c.Only, c.OnlyIdx = only, idx
	real := os.Stdout
	// what the library writes to standard output is watched, not shown
	f, err := os.CreateTemp("", "vkout")
	if err == nil {
		os.Stdout = f
		defer os.Remove(f.Name())
		_ = os.Remove(f.Name())
		checks.Stdout = f
	}
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		pf, _ := os.Create(p)
		_ = pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	c.Watch(real, 300*time.Second)
	fn(c)
	rc := c.Finish(real)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
