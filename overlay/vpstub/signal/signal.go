package signal

import "github.com/si-co/vpir-code/vpstub/os"

var chans []chan<- os.Signal

func Notify(c chan<- os.Signal, sig ...os.Signal) { chans = append(chans, c) }
func Stop(c chan<- os.Signal)                     {}

// Deliver sends a signal to the program; like the runtime it does not wait.
func Deliver(s os.Signal) {
	for _, c := range chans {
		select {
		case c <- s:
		default:
		}
	}
}
