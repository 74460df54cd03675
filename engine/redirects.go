package main

// redirects maps library functions to the models in package vrt.
var redirects = map[string]string{
	"fmt.Sprintf":      "fmtSprintf",
	"fmt.Sprint":       "fmtSprint",
	"fmt.Sprintln":     "fmtSprintln",
	"fmt.Errorf":       "fmtErrorf",
	"fmt.Fprintf":      "fmtFprintf",
	"fmt.Fprint":       "fmtFprint",
	"fmt.Fprintln":     "fmtFprintln",
	"errors.Is":        "errorsIs",
	"strings.Index":    "stringsIndex",
	"bytes.Index":      "bytesIndex",
	"strings.Count":    "stringsCount",
	"sort.Slice":       "sortSlice",
	"sort.SliceStable": "sortSlice",
	"sort.Strings":     "sortStrings",
}
