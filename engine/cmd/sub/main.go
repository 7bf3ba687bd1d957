package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hsub"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() {
	sim.Main(hsub.Stream, hsub.Once, hsub.Filter, hsub.ACLs, hsub.StallH, hsub.Life)
}
