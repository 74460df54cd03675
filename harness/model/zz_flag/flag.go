// Package flag is package flag with the model's arguments, standard error and exit.
package flag

import (
	"flag"
	"io"
	"time"

	os "github.com/cespare/goclj/zz_os"
)

type (
	Value         = flag.Value
	Getter        = flag.Getter
	Flag          = flag.Flag
	ErrorHandling = flag.ErrorHandling
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var (
	ErrHelp     = flag.ErrHelp
	CommandLine = NewFlagSet("cljfmt", flag.ExitOnError)
	Usage       = func() { PrintDefaults() }

	initial []*flag.Flag // the flags of packages' variables
	used    bool
)

// FlagSet is flag.FlagSet with the model's standard error and exit.
type FlagSet struct {
	*flag.FlagSet
	h flag.ErrorHandling
}

func NewFlagSet(name string, h flag.ErrorHandling) *FlagSet {
	f := &FlagSet{FlagSet: flag.NewFlagSet(name, flag.ContinueOnError), h: h}
	f.SetOutput(os.Stderr)
	f.Usage = func() {
		io.WriteString(f.Output(), "Usage:\n")
		f.PrintDefaults()
	}
	return f
}

func (f *FlagSet) Init(name string, h flag.ErrorHandling) {
	f.FlagSet.Init(name, flag.ContinueOnError)
	f.h = h
}

func (f *FlagSet) ErrorHandling() flag.ErrorHandling { return f.h }

func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.h {
	case flag.ExitOnError:
		if err == flag.ErrHelp {
			os.Exit(0)
		}
		os.Exit(2)
	case flag.PanicOnError:
		panic(err)
	}
	return err
}

// PrintDefaults leaves out the list of flags.
func (f *FlagSet) PrintDefaults() { io.WriteString(f.Output(), "(flags)\n") }

// Reset makes a new command line.
func Reset() {
	if !used {
		used = true
		CommandLine.VisitAll(func(f *flag.Flag) { initial = append(initial, f) })
	} else {
		CommandLine.FlagSet = NewFlagSet("cljfmt", flag.ExitOnError).FlagSet
		for _, f := range initial {
			f.Value.Set(f.DefValue)
			CommandLine.Var(f.Value, f.Name, f.Usage)
		}
		Usage = func() { PrintDefaults() }
	}
	CommandLine.Usage = func() { Usage() }
}

func Parse()         { CommandLine.Parse(os.Args[1:]) }
func PrintDefaults() { CommandLine.PrintDefaults() }

func Func(name, usage string, fn func(string) error)     { CommandLine.Func(name, usage, fn) }
func BoolFunc(name, usage string, fn func(string) error) { CommandLine.BoolFunc(name, usage, fn) }

func Var(v flag.Value, name, usage string)               { CommandLine.Var(v, name, usage) }
func BoolVar(p *bool, name string, v bool, usage string) { CommandLine.BoolVar(p, name, v, usage) }
func StringVar(p *string, name string, v string, usage string) {
	CommandLine.StringVar(p, name, v, usage)
}
func IntVar(p *int, name string, v int, usage string)    { CommandLine.IntVar(p, name, v, usage) }
func Bool(name string, v bool, usage string) *bool       { return CommandLine.Bool(name, v, usage) }
func String(name string, v string, usage string) *string { return CommandLine.String(name, v, usage) }
func Int(name string, v int, usage string) *int          { return CommandLine.Int(name, v, usage) }
func Duration(name string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(name, v, u)
}
func Args() []string                { return CommandLine.Args() }
func NArg() int                     { return CommandLine.NArg() }
func Arg(i int) string              { return CommandLine.Arg(i) }
func NFlag() int                    { return CommandLine.NFlag() }
func Parsed() bool                  { return CommandLine.Parsed() }
func Set(name, value string) error  { return CommandLine.Set(name, value) }
func Lookup(name string) *flag.Flag { return CommandLine.Lookup(name) }
func Visit(fn func(*flag.Flag))     { CommandLine.Visit(fn) }
func VisitAll(fn func(*flag.Flag))  { CommandLine.VisitAll(fn) }
