package main

import (
	"github.com/openconfig/gnmi/zzsim/h/htree"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(htree.H) }
