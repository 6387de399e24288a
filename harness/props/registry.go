// Package props holds the executable properties, one file per area.
package props

import (
	"fmt"

	"cpverif/pbt"
)

// Sub is one generated check of a property.
type Sub struct {
	Name   string
	Weight int
	Fn     func(*pbt.T)
}

// Pin is a fixed scenario, run once per check.
type Pin struct {
	Name string
	Fn   func(*pbt.T)
}

// Prop is one property.
type Prop struct {
	ID              string
	Quick, Thorough int // cases over all workers
	Rule            string
	Subs            []Sub
	Pins            []Pin
}

var All = map[string]*Prop{}

func register(p *Prop) { All[p.ID] = p }

// Run gives the function for one case; only restricts it to one sub-check.
func (p *Prop) Run(only string) func(*pbt.T) {
	if only != "" {
		for _, s := range p.Subs {
			if s.Name == only {
				return s.Fn
			}
		}
		panic("no sub-check " + only)
	}
	w := make([]int, len(p.Subs))
	for i, s := range p.Subs {
		w[i] = s.Weight
	}
	return func(t *pbt.T) {
		s := p.Subs[t.Weighted(w...)]
		t.Label("sub:" + s.Name)
		t.Logf("check %s/%s", p.ID, s.Name)
		s.Fn(t)
	}
}

func (p *Prop) PinFn(name string) func(*pbt.T) {
	for _, x := range p.Pins {
		if x.Name == name {
			return func(t *pbt.T) {
				t.Logf("check %s/%s", p.ID, name)
				x.Fn(t)
			}
		}
	}
	panic(fmt.Sprint("no pinned scenario ", name))
}
