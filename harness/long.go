package main

import (
	"fmt"
)

// Long lives of one instance: thousands of requests over more policies and objects than the short
// histories have, for what only shows after many operations (caches that fill up, counters, state
// that piles up between policies coming and going).

const longBase = 6000000

func longLife(weights map[string]int) func(t *T) {
	return func(t *T) {
		w := newWorld()
		s := mustEmbedded(t, &monKV{base: baseKV(t)})
		h := newHist(t, w, t.Chance(30), weights)
		if t.Chance(70) {
			h.polIds = nil
			for i := 0; i < 3+t.Intn(30); i++ {
				h.polIds = append(h.polIds, fmt.Sprintf("policy %d", i))
			}
			h.ids = nil
			for i := 0; i < 3+t.Intn(10); i++ {
				h.ids = append(h.ids, fmt.Sprint(i))
			}
		}
		n := 2500 + t.Intn(2500)
		for i := 0; i < n; i++ {
			step(t, s, w, h.next())
			if i%1000 == 999 {
				sweep(t, s, w)
			}
			if len(t.trace) > 1500 {
				t.trace = append([]string{"..."}, t.trace[1000:]...)
			}
		}
		sweep(t, s, w)
		t.Count("long lives", 1)
		t.Nontrivial(w.render())
	}
}

// weightsFor are the changes of a history and the given reads.
func weightsFor(reads ...string) map[string]int {
	w := map[string]int{"create": 3, "update": 3, "delpol": 2, "set": 30, "del": 14, "delmany": 3}
	for _, r := range reads {
		w[r] = 40 / len(reads)
	}
	return w
}
