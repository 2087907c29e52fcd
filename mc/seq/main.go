// Command seq enumerates bounded input and operation spaces of go808 and compares the
// implementation with the reference model on every element.
package main

import (
	"fmt"
	"io"
	"os"

	log "github.com/sirupsen/logrus"
	"verifmc/hk"
)

var props = map[string]func(*hk.Run){}

func main() {
	setLocal(zone)
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	r := hk.Start()
	childSetup()
	f, ok := props[r.Prop]
	if !ok {
		fmt.Fprintln(hk.Stdout, "unknown property", r.Prop)
		os.Exit(3)
	}
	f(r)
	r.Finish()
}
