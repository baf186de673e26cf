package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check <property> [quick|thorough] | unit <pkg> <func> [shard/of] [tier] | list")
		os.Exit(2)
	}
	if v := os.Getenv("GOVC_REPO"); v != "" {
		repoDir = v
	}
	switch os.Args[1] {
	case "unit":
		shard, of := 0, 1
		if len(os.Args) > 4 {
			p := strings.Split(os.Args[4], "/")
			shard, _ = strconv.Atoi(p[0])
			of, _ = strconv.Atoi(p[1])
		}
		if f := os.Getenv("GOVC_PROF"); f != "" { // profile of the first seconds
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			go func() { time.Sleep(12 * time.Second); pprof.StopCPUProfile(); w.Close(); fmt.Fprintln(os.Stderr, "profile written"); os.Exit(3) }()
		}
		r := runUnit(os.Args[2], os.Args[3], shard, of)
		if os.Getenv("GOVC_JSON") != "" {
			json.NewEncoder(os.Stdout).Encode(r)
			return
		}
		r.print()
	case "list":
		for _, u := range parseUnits() {
			fmt.Println(u.Pkg, u.Fn, u.Props, u.Enum)
		}
	case "native": // native PKG TEST [seconds] [seed]: runs one native search
		budget, seed := 5.0, int64(1)
		if len(os.Args) > 4 {
			budget, _ = strconv.ParseFloat(os.Args[4], 64)
		}
		if len(os.Args) > 5 {
			seed, _ = strconv.ParseInt(os.Args[5], 10, 64)
		}
		os.Exit(nativeCmd(os.Args[2], os.Args[3], budget, seed))
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkProp(os.Args[2], tier))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func nativeCmd(pkg, test string, budget float64, seed int64) int {
	work, err := os.MkdirTemp("", "govc_native_")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	ctx := context.Background()
	bin, err := buildNative(ctx, pkg, work, strings.Contains(test, "Race"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	t0 := time.Now()
	r := runNative(ctx, bin, nativeSpec{Pkg: pkg, Test: test}, work, seed, budget, nil)
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Printf("%.1fs %s\n", time.Since(t0).Seconds(), b)
	return 0
}
