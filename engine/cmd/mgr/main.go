package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hmgr"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() { sim.Main(hmgr.Mgr, hmgr.Stall, hmgr.Conn) }
