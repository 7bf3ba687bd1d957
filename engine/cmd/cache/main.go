package main

import (
	"github.com/openconfig/gnmi/zzsim/h/hcache"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func main() {
	sim.Main(hcache.TS, hcache.Feed, hcache.Iso, hcache.Meta, hcache.CTS, hcache.CFeed, hcache.CIso, hcache.CMeta)
}
