package model

import (
	"os"
	"syscall"

	"github.com/libregraph/idm/zzverif/sym"
)

// Signals a process sends to itself.

type notify struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var notified []notify

//verif:model os/signal.Notify
func sigNotify(c chan<- os.Signal, sig ...os.Signal) { notified = append(notified, notify{c, sig}) }

//verif:model os/signal.Stop
func sigStop(c chan<- os.Signal) {
	for i := range notified {
		if notified[i].c == c {
			notified[i].sigs = nil
		}
	}
}

//verif:model syscall.Kill
func sysKill(pid int, sig syscall.Signal) error {
	caught := false
	for _, n := range notified {
		for _, s := range n.sigs {
			if s == os.Signal(sig) {
				caught = true
				select {
				case n.c <- sig:
				default:
				}
				break
			}
		}
	}
	if !caught {
		sym.Died(int(sig))
	}
	return nil
}
