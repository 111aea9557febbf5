package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

// An analysis that needs more time or memory than a check has gives no answer;
// it has not decided the property, and says so as a failed obligation.
var spent atomic.Pointer[string]

func overBudget() {
	if s := spent.Load(); s != nil {
		panic(*s)
	}
}

func startBudget(id, tier string) {
	secs, gb := 720, 12
	if tier == "thorough" {
		secs = 3000
	}
	if v, err := strconv.Atoi(os.Getenv("GMV_SECS")); err == nil {
		secs = v
	}
	if v, err := strconv.Atoi(os.Getenv("GMV_GB")); err == nil {
		gb = v
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	go func() {
		var ms runtime.MemStats
		var late time.Time
		for {
			time.Sleep(250 * time.Millisecond)
			if spent.Load() == nil {
				runtime.ReadMemStats(&ms)
				why := ""
				if time.Now().After(end) {
					why = fmt.Sprintf("the analysis did not finish within %d s", secs)
				} else if ms.HeapInuse > uint64(gb)<<30 {
					why = fmt.Sprintf("the analysis needs more than %d GB", gb)
				}
				if why != "" {
					spent.Store(&why)
					late = time.Now().Add(45 * time.Second)
				}
			} else if time.Now().After(late) {
				fmt.Printf("%s: %s\n", id, *spent.Load())
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, "budget")
				os.Exit(1)
			}
		}
	}()
}
