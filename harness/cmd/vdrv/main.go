package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verif/harness/core"
	_ "verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrv worker|run|replay|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 0, "")
	dir := fs.String("dir", "", "")
	wbin := fs.String("worker", "", "worker binary")
	verif := fs.String("verif", "/verif", "")
	file := fs.String("file", "", "replay file")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "list":
		for _, id := range core.IDs() {
			p := core.Get(id)
			fmt.Println(id, p.Race, p.Quick, p.Thorough)
		}
	case "flags":
		// how to build the workers, if not as this
		p := core.Get(*prop)
		if p == nil {
			os.Exit(2)
		}
		if p.Race {
			fmt.Println("-race")
		}
		if p.TrimPath {
			fmt.Println("-trimpath")
		}
	case "worker":
		os.Exit(core.RunWorker(*prop, *seed, *tier, *from, *step, *n, *dir))
	case "run":
		w := *wbin
		if w == "" {
			w = os.Args[0]
		}
		os.Exit(core.RunParent(*prop, *seed, *tier, w, *verif, *verif+"/known_findings.txt"))
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v core.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		d, _ := os.MkdirTemp("", "vreplay")
		os.Setenv("VDRV_SCRATCH", d)
		os.Setenv("GO_TOKENIZER", d+"/cachedir")
		nn := core.Get(v.Prop).Quick
		if v.Tier == "thorough" {
			nn = core.Get(v.Prop).Thorough
		}
		core.RunWorker(v.Prop, v.Seed, v.Tier, v.Idx, nn, nn, d)
		ev, _ := os.ReadFile(d + "/events")
		fmt.Print(string(ev))
		os.RemoveAll(d)
		if len(ev) > 0 {
			os.Exit(1)
		}
	}
}
