package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hfake"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(hfake.H, hfake.Known) }
