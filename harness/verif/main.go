// Package main holds the harnesses that drive the public API.
package main

import vrt "github.com/cespare/goclj/zz_vrt"

var harnesses = map[string]func(){
	"ParseTotal":     ParseTotal,
	"ParseMirror":    ParseMirror,
	"ParsePositions": ParsePositions,
	"ParseOptions":   ParseOptions,
	"ParseLinks":     ParseLinks,
	"ParseReader":    ParseReader,
	"ParseLeak":      ParseLeak,
	"ParseTogether":  ParseTogether,
	"ParseFile":      ParseFile,
	"Inspect":        Inspect,
	"FmtCode":        FmtCode,
	"FmtComments":    FmtComments,
	"FmtIdempotent":  FmtIdempotent,
	"FmtTotal":       FmtTotal,
	"FmtBreaks":      FmtBreaks,
	"FmtSpaces":      FmtSpaces,
	"FmtStrings":     FmtStrings,
	"FmtEstablished": FmtEstablished,
	"FmtLayout":      FmtLayout,
	"NsSort":         NsSort,
	"NsStyle":        NsStyle,
	"NsUse":          NsUse,
	"NsUnused":       NsUnused,
	"FmtSwitch":      FmtSwitch,
	"FmtCompose":     FmtCompose,
	"FmtDefaults":    FmtDefaults,
	"FmtStable":      FmtStable,
	"FmtWriter":      FmtWriter,
}

func main() { vrt.Main(harnesses) }
