// Package main holds the harnesses that drive the cljfmt command in a model of its environment.
package main

import vrt "github.com/cespare/goclj/zz_vrt"

var harnesses = map[string]func(){
	"CliConfig": CliConfig,
	"CliFiles":  CliFiles,
	"CliFaults": CliFaults,
	"CliBroken": CliBroken,
	"CliWalk":   CliWalk,
	"CliFlags":  CliFlags,
	"CliWhere":  CliWhere,
	"CliCrash":  CliCrash,
}

func main() { vrt.Main(harnesses) }
