// Command c11race runs all the scenarios at once, freely, again and again:
// built with the race detector it reports unsynchronized accesses, which the
// cooperative scheduler of c11 can't see.
//
//	c11race SECONDS
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"verif.local/mc/conc"
)

func guard(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("panic: %v", p)
		}
	}()
	return f()
}

func main() {
	secs, _ := strconv.ParseFloat(os.Args[1], 64)
	stop := time.Now().Add(time.Duration(secs * float64(time.Second)))
	solo := make([]string, len(conc.Scenarios))
	const copies = 3
	n := copies * len(conc.Scenarios)
	rounds := 0
	for ; rounds < 3 || time.Now().Before(stop); rounds++ {
		// in the first round the packages have not been used before
		w := conc.NewWorld()
		res := make([]string, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[i] = guard(func() string { return conc.Scenarios[i%len(conc.Scenarios)].Do(w) })
			}()
		}
		close(start)
		wg.Wait()
		if rounds == 0 {
			for i, s := range conc.Scenarios {
				solo[i] = guard(func() string { return s.Do(conc.NewWorld()) })
			}
		}
		for i := range res {
			if k := i % len(conc.Scenarios); res[i] != solo[k] {
				fmt.Printf("MISMATCH %s returns %s, alone it returns %s\n", conc.Scenarios[k].Name, res[i], solo[k])
				os.Exit(5)
			}
		}
	}
	fmt.Printf("OK %d %d\n", rounds, rounds*n)
}
