package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hbyz"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(hbyz.H, hbyz.Client) }
