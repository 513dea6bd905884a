package artnet

import (
	"fmt"
	"time"
)

func gRemoved(c *Controller, s *gSnap, gone map[*ControlledNode]bool, open map[*ControlledNode]bool) (f []string) {
	var kept []*ControlledNode
	listed := map[*ControlledNode]bool{}
	for _, n := range c.Nodes {
		listed[n] = true
		if n == nil || s.cfg[n].IP == nil {
			return []string{"the node list holds an entry that was not there before"}
		}
	}
	for _, n := range s.nodes {
		if !gone[n] && (!open[n] || listed[n]) {
			kept = append(kept, n)
		}
	}
	if len(kept) != len(c.Nodes) {
		return []string{fmt.Sprintf("%d nodes are left instead of %d", len(c.Nodes), len(kept))}
	}
	for i, n := range kept {
		if c.Nodes[i] != n {
			f = append(f, fmt.Sprintf("position %d holds node %v instead of %v", i, c.Nodes[i].Node.IP, n.Node.IP))
		}
	}
	if len(f) > 0 {
		return f
	}
	for _, n := range kept {
		f = append(f, gNodeSame(s, n, nil)...)
	}
	for a, n := range c.OutputAddress {
		if !listed[n] {
			f = append(f, fmt.Sprintf("output universe %v leads to a removed node", a))
		}
	}
	for a, n := range c.InputAddress {
		if !listed[n] {
			f = append(f, fmt.Sprintf("input universe %v leads to a removed node", a))
		}
	}
	sk := func(ann func(cfg NodeConfig, a Address) bool) func(a Address) bool {
		return func(a Address) bool {
			for _, n := range s.nodes {
				if !listed[n] && ann(s.cfg[n], a) {
					return true
				}
			}
			return false
		}
	}
	return append(f, gRoutes(c, s, sk(gOut), sk(gIn))...)
}

var gStuck15 bool

func H_C15_cleanup(g *vGen) (f []string) {
	c := gState(g)
	for k := g.Intn(4); k > 0; k-- {
		c.updateNode(gCfg(g))
	}
	gAge(g, c)
	if len(gInv(c)) > 0 {
		return nil
	}
	s := gTake(c)
	t0 := time.Now()
	g.note("gcNode()")
	if gStuck15 {
		return nil
	}
	done := make(chan struct{})
	go func() { defer close(done); c.gcNode() }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		gStuck15 = true
		return []string{"clean-up does not come to an end"}
	}
	t1 := time.Now()
	gone, open := map[*ControlledNode]bool{}, map[*ControlledNode]bool{}
	for _, n := range s.nodes {
		gone[n] = s.seen[n].Add(7 * time.Second).Before(t0)
		open[n] = !gone[n] && s.seen[n].Add(7*time.Second).Before(t1)
	}
	return gRemoved(c, s, gone, open)
}

func H_C15_delete(g *vGen) (f []string) {
	c := gState(g)
	d, ok := interface{}(c).(gDeleter)
	if !ok {
		return nil
	}
	if len(gInv(c)) > 0 {
		return nil
	}
	s := gTake(c)
	cfg := gCfg(g)
	gone := map[*ControlledNode]bool{}
	known := false
	for _, n := range c.Nodes {
		if n.Node.IP.Equal(cfg.IP) {
			gone[n], known = true, true
		}
	}
	g.note("deleteNode(%v)", cfg.IP)
	err := d.deleteNode(cfg)
	if (err == nil) != known {
		f = append(f, fmt.Sprintf("deleting a node (known: %v) gave error %v", known, err))
	}
	return append(f, gRemoved(c, s, gone, nil)...)
}
