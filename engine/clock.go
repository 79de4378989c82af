package main

// A check always answers: work past the deadline is abandoned and the
// obligations it concerned count as not discharged.

import (
	"fmt"
	"os"
	"time"
)

const (
	contractSeconds = 420
	quickSeconds    = 620
	lastResort      = 840
)

var deadline time.Time

type outOfTime struct{}

func pastDeadline() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func checkTime() {
	if pastDeadline() {
		panic(outOfTime{})
	}
}

// watchdog ends a run that does not notice its deadline.
func (rp *reporter) watchdog(start time.Time) {
	if rp.o.tier != "quick" {
		return
	}
	time.AfterFunc(time.Until(start.Add(lastResort*time.Second)), func() {
		f := rp.file()
		writeJSON(f, &replayCase{Property: rp.o.prop, Obligation: "the obligations of the property are discharged in time", Status: "undischarged"})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", rp.o.prop, f)
		os.Exit(1)
	})
}
