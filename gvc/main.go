package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog *ssa.Program
	fns  map[string]*ssa.Function
	pkgs []*ssa.Package
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, fns: map[string]*ssa.Function{}, pkgs: ps}
	for _, p := range ps {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				w.fns[fnKey(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == p {
							if _, ok := w.fns[fnKey(f)]; !ok {
								w.fns[fnKey(f)] = f
							}
						}
					}
				}
			}
		}
	}
	return w, nil
}

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	flag.BoolVar(&debugLoops, "dl", false, "debug loops")
	verbose := flag.Bool("v", false, "")
	dump := flag.Bool("ssa", false, "")
	out := flag.String("json", "", "")
	leanOut := flag.String("lean", "", "")
	prof := flag.String("prof", "", "")
	isWorker := flag.Bool("worker", false, "")
	prop := flag.String("check", "", "decide the property")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	if *isWorker {
		runWorker(*repo, *cdir)
		return
	}
	if *prop != "" {
		cf := checkCfg{prop: *prop, tier: "quick", repo: *repo, cdir: *cdir, verif: *verif, seed: 1}
		if os.Getenv("VERIF_TIER") == "thorough" {
			cf.tier = "thorough"
		}
		if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
			cf.seed = n
		}
		os.Exit(runCheck(cf))
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(3)
	}
	if *dump {
		for _, a := range flag.Args() {
			if f := w.fns[a]; f != nil {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	reg, err := LoadContracts(*cdir)
	if err != nil {
		fmt.Println("CONTRACT-ERROR", err)
		os.Exit(3)
	}
	if *leanOut != "" {
		t, _ := leanFile(reg)
		os.WriteFile(*leanOut, []byte(t), 0644)
		return
	}
	var reps []*FnReport
	for _, a := range flag.Args() {
		for _, k := range reg.order {
			if k != a && !(strings.HasSuffix(a, "*") && strings.HasPrefix(k, a[:len(a)-1])) {
				continue
			}
			c := reg.cons[k]
			if c.assumed || c.inline {
				continue
			}
			r := VerifyFn(w.prog, reg, c, w.fns[k])
			reps = append(reps, r)
			f := r.Failed()
			fmt.Printf("%-50s obls=%d failed=%d cfgs=%d %.1fs\n", k, len(r.Obls), len(f), r.Configs, r.WallS)
			for _, s := range f {
				fmt.Println("   FAIL", s)
			}
			if *verbose {
				for _, o := range r.Obls {
					fmt.Printf("   %v [%s] %s %s (%s %.0fms)\n", o.OK, o.Kind, o.Name, o.Pos, o.Backend, o.Ms)
				}
			}
		}
	}
	for l := range buildN {
		fmt.Printf("L%d n=%d won=%d build %.1fs %dKB/q; ", l, buildN[l], winL[l], float64(buildNanos[l])/1e9, buildBytes[l]/1024/(buildN[l]+1))
	}
	fmt.Println()
	if *out != "" {
		b, _ := json.MarshalIndent(reps, "", " ")
		os.WriteFile(*out, b, 0644)
	}
}
