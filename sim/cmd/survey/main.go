// Command survey tallies violation classes over many runs without stopping (development aid).
package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"verifsim/driver"
	"verifsim/engine"
)

func main() {
	prop := os.Args[1]
	from, _ := strconv.Atoi(os.Args[2])
	to, _ := strconv.Atoi(os.Args[3])
	if len(os.Args) > 4 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
		debug.SetMaxStack(64 << 20)
		debug.SetMemoryLimit(1 << 30)
		logrus.SetOutput(io.Discard)
		var steps int64
		dec := map[string]int{}
		for i := from; i < to; i++ {
			t0 := time.Now()
			fmt.Printf("S %d\n", i)
			p := engine.Gen(prop, driver.RunSeed(1, i))
			t1 := time.Now()
			r := engine.RunPlan(p, false)
			if d := time.Since(t0); d > 3*time.Second {
				fmt.Printf("V slow %d gen %v run %v steps %dM\n", i, t1.Sub(t0), time.Since(t1), r.Steps/1e6)
			}
			// Everything here is a function of the seed, whichever process it runs in.
			h := fnv.New64a()
			h.Write(p.JSON())
			plan := h.Sum64()
			fmt.Fprint(h, r.Violations)
			fmt.Printf("H %d %x %x %x %x %x %d %d\n", i, plan, r.Outcome, r.Visible, r.Trace, h.Sum64(), r.Steps, r.SimTime)
			steps += r.Steps
			for k, v := range r.Decided {
				dec[k] += v
			}
			for k, v := range r.Fired {
				dec["fired "+k] += v
			}
			if r.MaxAlloc > 20<<20 {
				fmt.Printf("V alloc %d\t%d MB\n", i, r.MaxAlloc>>20)
			}
			if r.Broken != "" {
				fmt.Printf("V BROKEN %d %s\n", i, r.Broken)
			}
			seen := map[string]bool{}
			for _, v := range r.Violations {
				if !seen[v.Class] {
					seen[v.Class] = true
					fmt.Printf("V %s\t%d\t%s: %.400s\n", v.Class, i, v.At, strings.ReplaceAll(v.Msg, "\n", " "))
				}
			}
		}
		for k, v := range dec {
			fmt.Printf("D %d %s\n", v, k)
		}
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	cls := map[string][]string{}
	dec := map[string]int{}
	next := from
	chunk := 50
	if v, err := strconv.Atoi(os.Getenv("CHUNK")); err == nil {
		chunk = v
	}
	var hashes []string
	t0 := time.Now()
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				a := next
				next += chunk
				mu.Unlock()
				if a >= to {
					return
				}
				b := min(a+chunk, to)
				for a < b {
					c := exec.Command(os.Args[0], prop, fmt.Sprint(a), fmt.Sprint(b), "w")
					out, err := c.CombinedOutput()
					last := a
					mu.Lock()
					for _, l := range strings.Split(string(out), "\n") {
						switch {
						case strings.HasPrefix(l, "S "):
							last, _ = strconv.Atoi(l[2:])
						case strings.HasPrefix(l, "V "):
							k, _, _ := strings.Cut(l[2:], "\t")
							if strings.HasPrefix(k, "slow") || strings.HasPrefix(k, "alloc") {
								k = k[:4]
							}
							cls[k] = append(cls[k], l)
						case strings.HasPrefix(l, "H "):
							hashes = append(hashes, l)
						case strings.HasPrefix(l, "D "):
							var n int
							fmt.Sscanf(l, "D %d", &n)
							f := strings.SplitN(l, " ", 3)
							dec[f[2]] += n
						}
					}
					if err != nil {
						s := string(out)
						if i := strings.Index(s, "fatal error"); i >= 0 {
							s = s[i:]
						}
						cls["DEATH"] = append(cls["DEATH"], fmt.Sprintf("run %d: %.300s", last, s))
						a = last + 1
					} else {
						a = b
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if f := os.Getenv("HASHES"); f != "" {
		sort.Strings(hashes)
		os.WriteFile(f, []byte(strings.Join(hashes, "\n")), 0o644)
	}
	var ks []string
	for k := range cls {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(cls[ks[i]]) > len(cls[ks[j]]) })
	for _, k := range ks {
		sort.Strings(cls[k])
		fmt.Printf("%6d %s\n", len(cls[k]), k)
		for i := 0; i < min(2, len(cls[k])); i++ {
			fmt.Println("         ", cls[k][i])
		}
	}
	fmt.Println(time.Since(t0), dec)
}
