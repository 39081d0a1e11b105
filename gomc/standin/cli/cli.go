// Package cli stands in for github.com/urfave/cli/v2: an app with boolean and
// string flags and one action.
package cli

import (
	"fmt"
	"strings"
)

type Context struct{ App *App }

type Flag interface {
	names() []string
	set(string) error
	boolean() bool
	init()
}

type BoolFlag struct {
	Name, Usage string
	Aliases     []string
	Value       bool
	Destination *bool
}

func (f *BoolFlag) names() []string { return append([]string{f.Name}, f.Aliases...) }
func (f *BoolFlag) boolean() bool   { return true }
func (f *BoolFlag) init() {
	if f.Destination != nil {
		*f.Destination = f.Value
	}
}
func (f *BoolFlag) set(s string) error {
	if f.Destination != nil {
		*f.Destination = s != "false"
	}
	return nil
}

type StringFlag struct {
	Name, Value, Usage string
	Aliases            []string
	Destination        *string
}

func (f *StringFlag) names() []string { return append([]string{f.Name}, f.Aliases...) }
func (f *StringFlag) boolean() bool   { return false }
func (f *StringFlag) init() {
	if f.Destination != nil {
		*f.Destination = f.Value
	}
}
func (f *StringFlag) set(s string) error {
	if f.Destination != nil {
		*f.Destination = s
	}
	return nil
}

type App struct {
	Name, Usage string
	Flags       []Flag
	Action      func(*Context) error
}

func (a *App) Run(args []string) error {
	for _, f := range a.Flags {
		f.init()
	}
	for i := 1; i < len(args); i++ {
		if !strings.HasPrefix(args[i], "-") {
			break
		}
		name := strings.TrimLeft(args[i], "-")
		value, given := "", false
		if k := strings.Index(name, "="); k >= 0 {
			name, value, given = name[:k], name[k+1:], true
		}
		var flag Flag
		for _, f := range a.Flags {
			for _, n := range f.names() {
				if n == name {
					flag = f
				}
			}
		}
		if flag == nil {
			return fmt.Errorf("flag provided but not defined: -%s", name)
		}
		if !flag.boolean() && !given {
			i++
			if i == len(args) {
				return fmt.Errorf("flag needs an argument: -%s", name)
			}
			value = args[i]
		}
		if err := flag.set(value); err != nil {
			return err
		}
	}
	return a.Action(&Context{App: a})
}
