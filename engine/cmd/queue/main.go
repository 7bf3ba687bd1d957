package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hqueue"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(hqueue.H) }
