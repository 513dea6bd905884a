package artnet

import (
	"fmt"
	"time"

	"github.com/jsimonetti/go-artnet/packet/code"
)

func H_C14_announcement(g *vGen) (f []string) {
	c := gState(g)
	gAge(g, c)
	if len(gInv(c)) > 0 {
		return nil
	}
	s := gTake(c)
	cfg := gCfg(g)
	if len(c.Nodes) > 0 && g.Intn(2) == 0 {
		// the same node again, with little changed
		x := c.Nodes[g.Intn(len(c.Nodes))].Node
		x.OutputPorts = append([]OutputPort(nil), x.OutputPorts...)
		x.InputPorts = append([]InputPort(nil), x.InputPorts...)
		for k := g.Intn(3); k > 0; k-- {
			switch g.Intn(8) {
			case 0:
				x.Name = cfg.Name
			case 1:
				x.Status1 = cfg.Status1
			case 2:
				x.Status2 = cfg.Status2
			case 3:
				x.OutputPorts = cfg.OutputPorts
			case 4:
				x.InputPorts = cfg.InputPorts
			case 5:
				x.BindIndex, x.BindIP, x.Ethernet = cfg.BindIndex, cfg.BindIP, cfg.Ethernet
			case 6:
				x.Type, x.OEM, x.Version, x.BiosVersion = cfg.Type, cfg.OEM, cfg.Version, cfg.BiosVersion
			case 7:
				for i := range x.OutputPorts {
					x.OutputPorts[i].Status = code.GoodOutput(g.Intn(3))
				}
			}
		}
		cfg = x
	}
	var old *ControlledNode
	for _, n := range c.Nodes {
		if n.Node.IP.Equal(cfg.IP) {
			old = n
		}
	}
	g.note("updateNode(%+v)", cfg)
	t0 := time.Now()
	if err := c.updateNode(cfg); err != nil {
		return []string{"the announcement was refused: " + err.Error()}
	}
	var n *ControlledNode
	for _, x := range c.Nodes {
		if x.Node.IP.Equal(cfg.IP) {
			if n != nil {
				f = append(f, "two entries for one IP")
			}
			n = x
		} else if _, ok := s.cfg[x]; !ok {
			f = append(f, "another node appeared")
		} else {
			f = append(f, gNodeSame(s, x, nil)...)
		}
	}
	want := len(s.nodes)
	if old == nil {
		want++
	}
	if len(c.Nodes) != want {
		f = append(f, fmt.Sprintf("%d nodes are listed instead of %d", len(c.Nodes), want))
	}
	if n == nil {
		return append(f, "the announcing node is not listed")
	}
	if !gSameCfg(n.Node, cfg) {
		f = append(f, fmt.Sprintf("the description is %+v, announced was %+v", n.Node, cfg))
	}
	if n.LastSeen.Before(t0) || n.LastSeen.After(time.Now()) {
		f = append(f, "the last-seen time is not fresh")
	}
	for _, p := range cfg.OutputPorts {
		if c.OutputAddress[p.Address] != n {
			f = append(f, fmt.Sprintf("announced output universe %v does not lead to the node", p.Address))
		}
	}
	for _, p := range cfg.InputPorts {
		if c.InputAddress[p.Address] != n {
			f = append(f, fmt.Sprintf("announced input universe %v does not lead to the node", p.Address))
		}
	}
	for a, m := range c.OutputAddress {
		if m == n && !gOut(cfg, a) {
			f = append(f, fmt.Sprintf("output universe %v leads to a node no longer announcing it", a))
		}
	}
	for a, m := range c.InputAddress {
		if m == n && !gIn(cfg, a) {
			f = append(f, fmt.Sprintf("input universe %v leads to a node no longer announcing it", a))
		}
	}
	before := NodeConfig{}
	if old != nil {
		before = s.cfg[old]
		for a, b := range s.bufs[old] {
			if gOut(before, a) && gOut(cfg, a) && (n.DMXBuffer[a] == nil || !gSameBuf(*n.DMXBuffer[a], b.v)) {
				f = append(f, fmt.Sprintf("the stored frame of continuing universe %v changed", a))
			}
		}
	}
	return append(f, gRoutes(c, s, func(a Address) bool { return gOut(before, a) || gOut(cfg, a) }, func(a Address) bool { return gIn(before, a) || gIn(cfg, a) })...)
}
