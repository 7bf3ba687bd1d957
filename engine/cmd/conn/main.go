package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hconn"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(hconn.H) }
