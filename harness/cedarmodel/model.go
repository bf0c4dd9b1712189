// Package cedarmodel states the contract of the trie library
// (github.com/vcaesar/cedar, reduced tries) that the code under test relies
// on. The engine calls these functions in place of the library's.
package cedarmodel

import (
	"github.com/vcaesar/cedar"

	"vfh/vf"
)

type edge struct {
	label byte
	to    int
}

type node struct {
	up    int
	edges []edge
	val   int
	has   bool
	split bool // the value sits in a leaf of its own, below label 0
	leaf  int  // id of that leaf, 0 when not made yet
	slot  bool // this node is such a leaf
}

type trie struct {
	nodes []*node
}

var tries = map[*cedar.Cedar]*trie{}

// New returns an empty trie.
func New(reduced ...bool) *cedar.Cedar {
	cd := new(cedar.Cedar)
	tries[cd] = &trie{nodes: []*node{{up: -1}}}
	return cd
}

// Jump follows key from a node.
func Jump(cd *cedar.Cedar, key []byte, from int) (int, error) {
	t := tries[cd]
	to := 0
	for _, k := range key {
		n := t.nodes[from]
		if n.slot || (n.has && !n.split) {
			return from, cedar.ErrNoKey
		}
		to = -1
		for i := range n.edges {
			if n.edges[i].label == k {
				to = n.edges[i].to
				break
			}
		}
		if to < 0 {
			if k == 0 && n.has {
				if n.leaf == 0 {
					n.leaf = len(t.nodes)
					t.nodes = append(t.nodes, &node{up: from, slot: true})
				}
				to = n.leaf
			} else {
				return from, cedar.ErrNoKey
			}
		}
		from = to
	}
	return to, nil
}

// Value is the value stored at a node.
func Value(cd *cedar.Cedar, id int) (int, error) {
	t := tries[cd]
	n := t.nodes[id]
	if n.slot {
		return t.nodes[n.up].val, nil
	}
	if n.has {
		return n.val, nil
	}
	return 0, cedar.ErrNoVal
}

// Get looks a key up.
func Get(cd *cedar.Cedar, key []byte) (int, error) {
	to, err := Jump(cd, key, 0)
	if err != nil {
		return 0, err
	}
	return Value(cd, to)
}

// ExactMatch looks a key up.
func ExactMatch(cd *cedar.Cedar, key []byte) (int, bool) {
	v, err := Find(cd, key, 0)
	return v, err == nil
}

// Find looks a key up from a node.
func Find(cd *cedar.Cedar, key []byte, from int) (int, error) {
	to, err := Jump(cd, key, from)
	if err != nil || to == 0 {
		return 0, cedar.ErrNoKey
	}
	v, err := Value(cd, to)
	if err != nil {
		return 0, cedar.ErrNoKey
	}
	return v, nil
}

func (t *trie) walk(key []byte) *node {
	cur := 0
	for _, k := range key {
		if k == 0 {
			vf.Unsupported("a NUL byte in a trie key")
		}
		n := t.nodes[cur]
		if n.has {
			n.split = true
		}
		to := -1
		for i := range n.edges {
			if n.edges[i].label == k {
				to = n.edges[i].to
				break
			}
		}
		if to < 0 {
			to = len(t.nodes)
			t.nodes = append(t.nodes, &node{up: cur})
			n.edges = append(n.edges, edge{k, to})
		}
		cur = to
	}
	n := t.nodes[cur]
	if len(n.edges) > 0 || cur == 0 {
		n.split = true
	}
	return n
}

// Insert stores a value.
func Insert(cd *cedar.Cedar, key []byte, val int) error {
	if val < 0 || val >= cedar.ValLimit {
		return cedar.ErrInvalidVal
	}
	n := tries[cd].walk(key)
	n.val, n.has = val, true
	return nil
}

// Update adds to a value.
func Update(cd *cedar.Cedar, key []byte, val int) error {
	n := tries[cd].walk(key)
	if !n.has {
		n.val, n.has = 0, true
	}
	n.val += val
	return nil
}

// Delete removes a key. A key that is only a prefix of others takes the
// others with it, as the library does.
func Delete(cd *cedar.Cedar, key []byte) error {
	t := tries[cd]
	to, err := Jump(cd, key, 0)
	if err != nil {
		return cedar.ErrNoKey
	}
	n := t.nodes[to]
	if n.slot {
		to = n.up
		n = t.nodes[to]
	}
	if n.has {
		n.has, n.val, n.split, n.leaf = false, 0, false, 0
		if len(n.edges) > 0 {
			return nil
		}
	}
	for to > 0 {
		p := t.nodes[n.up]
		es := make([]edge, 0, len(p.edges))
		for i := range p.edges {
			if p.edges[i].to != to {
				es = append(es, p.edges[i])
			}
		}
		p.edges = es
		if len(p.edges) > 0 || p.has {
			break
		}
		to, n = n.up, p
	}
	return nil
}
