package main

import (
	"fmt"
	"os"
	"sync"
	"time"
)

// selftest repeats many processes at several worker counts and compares everything they did.
func selftest(args []string) {
	props := args
	if len(props) == 0 {
		props = sortedKeys(plans)
	}
	bad := 0
	for _, prop := range props {
		d := &driver{prop: prop, seed: 77}
		d.profile()
		jobs := d.jobs(plans[prop], 600)
		ref := map[int][]uint64{}
		for _, workers := range []int{8, 3, 16} {
			var mu sync.Mutex
			var wg sync.WaitGroup
			sem := make(chan bool, workers)
			t0 := time.Now()
			diff, n := 0, 0
			for _, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					out, err := spawnWorker("batch", &batchIn{Prop: prop, Seeds: j.seeds}, workerLimit)
					if err != nil {
						fatal("%v", err)
					}
					mu.Lock()
					defer mu.Unlock()
					var l []uint64
					for _, r := range out.Results {
						l = append(l, r.Digest)
					}
					n += len(l)
					if o, ok := ref[j.i]; ok {
						if fmt.Sprint(o) != fmt.Sprint(l) {
							diff++
						}
					} else {
						ref[j.i] = l
					}
				}()
			}
			wg.Wait()
			fmt.Printf("%s: %d workers, %d processes, %d runs, %d processes differ, %.1f s\n", prop, workers, len(jobs), n, diff, time.Since(t0).Seconds())
			bad += diff
		}
	}
	if bad > 0 {
		os.Exit(2)
	}
}
