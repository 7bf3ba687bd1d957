package main

import (
	"github.com/openconfig/gnmi/zzsim/h/htarget"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(htarget.H) }
