package engine

import "sort"

// Prop is one property with its generator and oracle.
type Prop struct {
	ID       string
	Rule     string    // how cases are made, and what makes one non-trivial
	Run      func(*T)  // one random case
	Fixed    []Example // deterministic cases, run first
	Quick    int       // number of random cases
	Thorough int
	Chunk    int      // cases per process
	Env      []string // of the processes
	Serial   bool     // one process at a time (it uses several cores itself)
}

type Example struct {
	Name string
	Run  func(*T)
}

var props = map[string]*Prop{}

func Register(p *Prop) {
	if p.Chunk == 0 {
		p.Chunk = 2000
	}
	props[p.ID] = p
}

func Find(id string) *Prop { return props[id] }

func IDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (p *Prop) body(index int) (func(*T), string) {
	if index < len(p.Fixed) {
		return p.Fixed[index].Run, "example " + p.Fixed[index].Name
	}
	return p.Run, ""
}
