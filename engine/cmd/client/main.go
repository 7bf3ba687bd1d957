package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hclient"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(hclient.H, hclient.Stall) }
