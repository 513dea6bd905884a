package artnet

// Concrete histories and states for replays. These harnesses only look for a failing input after an obligation
// has failed; they never decide a property.

import (
	"fmt"
	"io/ioutil"
	"net"
	"reflect"
	"time"

	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
)

func vGenHook(g *vGen, t reflect.Type) (reflect.Value, bool) {
	if t.Kind() == reflect.Interface && t.Name() == "Logger" {
		return reflect.ValueOf(gLog()), true
	}
	return reflect.Value{}, false
}

func gLog() Logger {
	l := logrus.New()
	l.Out = ioutil.Discard
	l.Level = logrus.PanicLevel
	return NewLogger(logrus.NewEntry(l))
}

func gAddr(g *vGen) Address {
	as := []Address{{0, 0}, {0, 1}, {0, 2}, {0, 0x81}, {1, 0}, {1, 1}, {0x7f, 0xff}, {0, 0x10}}
	if g.Intn(4) == 0 {
		as = []Address{{0, 0x0f}, {0x80, 0x0f}, {0x80, 0}, {0xff, 0xff}, {0x81, 1}, {0x40, 0xf0}, {0x7f, 0x7f}, {uint8(g.Intn(256)), uint8(g.Intn(256))}}
	}
	return as[g.Intn(len(as))]
}

func gIP(g *vGen) net.IP { return net.IP{10, 0, 0, byte(g.Intn(5))} }

func gCfg(g *vGen) NodeConfig {
	c := NodeConfig{IP: gIP(g), Name: fmt.Sprintf("n%d", g.Intn(100)), Type: code.StNode, Port: uint16([]int{6454, 0, 7000}[g.Intn(3)]), OEM: uint16(g.Intn(9)),
		Description: fmt.Sprintf("d%d", g.Intn(100)), BindIndex: uint8(g.Intn(4)), Manufacturer: fmt.Sprintf("m%d", g.Intn(10)), Version: uint16(g.Intn(9))}
	if g.Intn(4) == 0 {
		c.Name, c.Description = "", ""
	}
	if g.Intn(4) == 0 {
		c.Type = code.StController
	}
	c.Status1, c.Status2 = code.Status1(g.Intn(2)<<uint(g.Intn(8))), code.Status2(g.Intn(2)<<uint(g.Intn(6)))
	c.BiosVersion = uint8(g.Intn(3))
	if g.Intn(2) == 0 {
		c.BindIP = gIP(g)
		c.Ethernet = net.HardwareAddr{2, 0, 0, 0, 0, byte(g.Intn(3))}
	}
	for k := g.Intn(5); k > 0; k-- {
		c.OutputPorts = append(c.OutputPorts, OutputPort{Address: gAddr(g)})
	}
	for k := g.Intn(5); k > 0; k-- {
		c.InputPorts = append(c.InputPorts, InputPort{Address: gAddr(g)})
	}
	return c
}

func gController() *Controller {
	c := NewController("c", net.IP{10, 0, 0, 200}, gLog())
	c.OutputAddress = map[Address]*ControlledNode{}
	c.InputAddress = map[Address]*ControlledNode{}
	c.shutdownCh = make(chan struct{})
	c.cNode.sendCh = make(chan netPayload, 4000)
	return c
}

// gStep does one random operation on the tables.
func gStep(g *vGen, c *Controller) {
	switch g.Intn(7) {
	case 6: // some frames have been transmitted since
		for _, n := range c.Nodes {
			for _, b := range n.DMXBuffer {
				if b != nil && b.Stale && g.Intn(2) == 0 {
					b.Stale, b.LastUpdate = false, time.Now()
				}
			}
		}
	case 0, 1, 2:
		cfg := gCfg(g)
		g.note("updateNode(%+v)", cfg)
		c.updateNode(cfg)
	case 3:
		cfg := gCfg(g)
		g.note("deleteNode(%v)", cfg.IP)
		gDelete(c, cfg)
	case 4:
		gAge(g, c)
		g.note("gcNode()")
		c.gcNode()
	case 5:
		a := gAddr(g)
		var d [512]byte
		g.Read(d[:])
		g.note("SendDMXToAddress(%v)", a)
		c.SendDMXToAddress(d, a)
	}
}

func gAge(g *vGen, c *Controller) {
	for i, n := range c.Nodes {
		ago := []time.Duration{0, 3 * time.Second, 6500 * time.Millisecond, 7100 * time.Millisecond, 8 * time.Second, 13 * time.Second, 20 * time.Second, time.Hour}[g.Intn(8)]
		n.LastSeen = time.Now().Add(-ago)
		if g.Intn(20) == 0 {
			n.LastSeen = time.Time{}
			ago = -1
		}
		g.note("node %d last seen %v ago", i, ago)
	}
}

func gState(g *vGen) *Controller {
	c := gController()
	for k := g.Intn(10); k > 0; k-- {
		gStep(g, c)
	}
	return c
}

func gOut(cfg NodeConfig, a Address) bool {
	for _, p := range cfg.OutputPorts {
		if p.Address == a {
			return true
		}
	}
	return false
}

func gIn(cfg NodeConfig, a Address) bool {
	for _, p := range cfg.InputPorts {
		if p.Address == a {
			return true
		}
	}
	return false
}

// gInv checks the invariant of the tables.
func gInv(c *Controller) (f []string) {
	listed := map[*ControlledNode]bool{}
	ips := map[string]bool{}
	for _, n := range c.Nodes {
		if listed[n] {
			f = append(f, "a node is listed twice")
		}
		if ips[n.Node.IP.String()] {
			f = append(f, "an IP is listed twice: "+n.Node.IP.String())
		}
		listed[n], ips[n.Node.IP.String()] = true, true
	}
	for a, n := range c.OutputAddress {
		switch {
		case n == nil || !listed[n]:
			f = append(f, fmt.Sprintf("output universe %v leads to a node that is not listed", a))
		case !gOut(n.Node, a):
			f = append(f, fmt.Sprintf("output universe %v leads to a node that does not announce it", a))
		case n.DMXBuffer[a] == nil:
			f = append(f, fmt.Sprintf("output universe %v has no DMX buffer", a))
		}
	}
	for a, n := range c.InputAddress {
		if n == nil || !listed[n] {
			f = append(f, fmt.Sprintf("input universe %v leads to a node that is not listed", a))
		} else if !gIn(n.Node, a) {
			f = append(f, fmt.Sprintf("input universe %v leads to a node that does not announce it", a))
		}
	}
	bufs := map[*dmxBuffer]string{}
	for a, n := range c.OutputAddress {
		if n == nil || n.DMXBuffer[a] == nil {
			continue
		}
		if o, ok := bufs[n.DMXBuffer[a]]; ok {
			f = append(f, fmt.Sprintf("universes %v and %v share a buffer", a, o))
		}
		bufs[n.DMXBuffer[a]] = fmt.Sprint(a)
	}
	return f
}

type gBuf struct {
	p *dmxBuffer
	v dmxBuffer
}

// gSnap is a copy of everything the tables hold.
type gSnap struct {
	nodes []*ControlledNode
	cfg   map[*ControlledNode]NodeConfig
	seen  map[*ControlledNode]time.Time
	seq   map[*ControlledNode]uint8
	udp   map[*ControlledNode]net.UDPAddr
	bufs  map[*ControlledNode]map[Address]gBuf
	out   map[Address]*ControlledNode
	in    map[Address]*ControlledNode
}

func gTake(c *Controller) *gSnap {
	s := &gSnap{cfg: map[*ControlledNode]NodeConfig{}, seen: map[*ControlledNode]time.Time{}, seq: map[*ControlledNode]uint8{}, udp: map[*ControlledNode]net.UDPAddr{},
		bufs: map[*ControlledNode]map[Address]gBuf{}, out: map[Address]*ControlledNode{}, in: map[Address]*ControlledNode{}}
	for _, n := range c.Nodes {
		s.nodes = append(s.nodes, n)
		cfg := n.Node
		cfg.OutputPorts = append([]OutputPort(nil), cfg.OutputPorts...)
		cfg.InputPorts = append([]InputPort(nil), cfg.InputPorts...)
		cfg.IP = append(net.IP(nil), cfg.IP...)
		s.cfg[n], s.seen[n], s.seq[n] = cfg, n.LastSeen, n.Sequence
		u := n.UDPAddress
		u.IP = append(net.IP(nil), u.IP...)
		s.udp[n] = u
		s.bufs[n] = map[Address]gBuf{}
		for a, b := range n.DMXBuffer {
			if b != nil {
				s.bufs[n][a] = gBuf{b, *b}
			}
		}
	}
	for a, n := range c.OutputAddress {
		s.out[a] = n
	}
	for a, n := range c.InputAddress {
		s.in[a] = n
	}
	return s
}

func gSameCfg(a, b NodeConfig) bool {
	norm := func(c NodeConfig) NodeConfig {
		c.OutputPorts = append([]OutputPort{}, c.OutputPorts...)
		c.InputPorts = append([]InputPort{}, c.InputPorts...)
		c.IP = append(net.IP{}, c.IP...)
		return c
	}
	return reflect.DeepEqual(norm(a), norm(b))
}

func gSameBuf(a, b dmxBuffer) bool {
	return a.Data == b.Data && a.Stale == b.Stale && a.LastUpdate.Equal(b.LastUpdate)
}

// gNodeSame compares a node with its copy; but tells which buffer may differ in contents.
func gNodeSame(s *gSnap, n *ControlledNode, but *dmxBuffer) []string {
	var f []string
	if !gSameCfg(n.Node, s.cfg[n]) {
		f = append(f, fmt.Sprintf("the description of node %v changed: %+v, was %+v", s.cfg[n].IP, n.Node, s.cfg[n]))
	}
	if !n.LastSeen.Equal(s.seen[n]) {
		f = append(f, fmt.Sprintf("the last-seen time of node %v changed", s.cfg[n].IP))
	}
	if n.Sequence != s.seq[n] {
		f = append(f, fmt.Sprintf("the sequence number of node %v changed", s.cfg[n].IP))
	}
	if !n.UDPAddress.IP.Equal(s.udp[n].IP) || n.UDPAddress.Port != s.udp[n].Port {
		f = append(f, fmt.Sprintf("the address of node %v changed", s.cfg[n].IP))
	}
	for a, b := range s.bufs[n] {
		if n.DMXBuffer[a] != b.p {
			f = append(f, fmt.Sprintf("the buffer of universe %v of node %v was replaced", a, s.cfg[n].IP))
		} else if b.p != but && !gSameBuf(*b.p, b.v) {
			f = append(f, fmt.Sprintf("the frame of universe %v of node %v changed", a, s.cfg[n].IP))
		}
	}
	return f
}

func gRouteSame(what string, a Address, now, was map[Address]*ControlledNode) []string {
	n, ok := now[a]
	o, had := was[a]
	if ok != had || n != o {
		return []string{fmt.Sprintf("the route of %s universe %v changed", what, a)}
	}
	return nil
}

func gAddrs(ms ...map[Address]*ControlledNode) map[Address]bool {
	r := map[Address]bool{}
	for _, m := range ms {
		for a := range m {
			r[a] = true
		}
	}
	return r
}

func gRoutes(c *Controller, s *gSnap, skipOut, skipIn func(a Address) bool) (f []string) {
	for a := range gAddrs(c.OutputAddress, s.out) {
		if !skipOut(a) {
			f = append(f, gRouteSame("output", a, c.OutputAddress, s.out)...)
		}
	}
	for a := range gAddrs(c.InputAddress, s.in) {
		if !skipIn(a) {
			f = append(f, gRouteSame("input", a, c.InputAddress, s.in)...)
		}
	}
	return f
}

func gNone(a Address) bool { return false }

type gDeleter interface{ deleteNode(NodeConfig) error }

func gDelete(c *Controller, cfg NodeConfig) {
	if d, ok := interface{}(c).(gDeleter); ok {
		d.deleteNode(cfg)
	}
}
