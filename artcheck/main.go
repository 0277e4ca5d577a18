package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var props = map[string]func(*Rep){
	"C01": propC01, "C02": propC02, "C03": propC03, "C04": propC04, "C05": propC05, "C06": propC06, "C07": propC07,
	"C08": propC08, "C09": propC09, "C10": propC10, "C11": propC11, "C12": propC12, "C13": propC13, "C14": propC14, "C15": propC15, "C16": propC16, "C17": propC17, "C18": propC18, "C19": propC19, "C24": propC24, "C20": propC20, "C21": propC21, "C22": propC22, "C23": propC23, "C25": propC25, "C26": propC26,
}

func main() {
	flag.StringVar(&repoDir, "repo", repoDir, "directory of the repository")
	flag.StringVar(&verifDir, "verif", verifDir, "directory for evidence")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Println("usage: artcheck PROPERTY... | all | run FUNCTION...")
		os.Exit(2)
	}
	start := time.Now()
	debug.SetGCPercent(400)
	if pf := os.Getenv("ARTCHECK_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := loadProg()
	if err != nil {
		fmt.Println("the repository cannot be analysed:", err)
		os.Exit(2)
	}
	if args[0] == "dbg" {
		debugC03(p)
		return
	}
	if args[0] == "world" {
		debugWorld(p, args[1:])
		return
	}
	if args[0] == "live" { // live TYPE OPTIONS LATER
		t0 := time.Now()
		w := analyseRoot(p)
		split := func(i int) []string {
			if i >= len(args) || args[i] == "" {
				return nil
			}
			return strings.Split(args[i], ",")
		}
		fmt.Println("world", time.Since(t0))
		t0 = time.Now()
		sc := w.live(args[1], split(2), split(3))
		fmt.Println("scenario", time.Since(t0), sc.fail)
		for _, e := range sc.w.entries {
			sc.w.dump(e)
		}
		return
	}
	if args[0] == "run" {
		debugRun(p, p.newExec(), args[1:])
		return
	}
	if args[0] == "all" {
		args = nil
		for k := range props {
			args = append(args, k)
		}
		sort.Strings(args)
	}
	exit := 0
	for _, a := range args {
		f := props[a]
		if f == nil {
			fmt.Println("no such property:", a)
			os.Exit(2)
		}
		t0 := time.Now()
		r := newRep(a, p)
		r.tier = *tier
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("ARTCHECK_TRACE") != "" {
						panic(e)
					}
					r.check("the analysis completes", false, "analyser", "the code has a form the analysis cannot handle: %v", e)
				}
			}()
			f(r)
		}()
		if e := r.finish(*tier, seed, start, "other"); e > exit {
			exit = e
		}
		if os.Getenv("ARTCHECK_TIME") != "" {
			fmt.Println(a, time.Since(t0))
		}
	}
	pprof.StopCPUProfile()
	os.Exit(exit)
}
