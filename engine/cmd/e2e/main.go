package main

import (
	"github.com/openconfig/gnmi/zzsim/h/he2e"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(he2e.H) }
