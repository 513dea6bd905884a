package artnet

import (
	"fmt"
	"net"
	"runtime"
	"time"

	"github.com/jsimonetti/go-artnet/packet/code"
)

func H_C24_startstop(g *vGen) (f []string) {
	defer func() {
		if x := recover(); x != nil {
			f = append(f, fmt.Sprintf("panic: %v", x))
		}
	}()
	busy, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil
	}
	defer busy.Close()
	listen := net.UDPAddr{IP: net.IP{127, 0, 0, 1}}
	if g.Intn(3) == 0 {
		listen = *busy.LocalAddr().(*net.UDPAddr)
	}
	fps := []int{-5, 0, 1, 2, 44, 1000, 1000000000, 1000000001, 1 << 40}[g.Intn(9)]
	bc := net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}
	if g.Intn(2) == 0 {
		c := NewController("c", net.IP{127, 0, 0, 1}, gLog(), ListenAddress(listen), BroadcastAddr(bc))
		c.cNode.broadcastAddr = bc
		err := c.SetOption(MaxFPS(fps))
		if fps >= 1 && fps <= 1000000000 && (err != nil || c.maxFPS != fps) || fps < 1 && (err == nil || c.maxFPS != 1000) {
			f = append(f, fmt.Sprintf("MaxFPS(%d): error %v, rate %d", fps, err, c.maxFPS))
		}
		if c.maxFPS > 1000000 {
			c.maxFPS = 1000
		}
		for k := g.Intn(4); k > 0; k-- {
			if g.Intn(2) == 0 {
				g.note("controller start, %v", listen)
				c.Start()
				time.Sleep(time.Duration(g.Intn(3)) * time.Millisecond)
			}
			g.note("controller stop")
			c.Stop()
			if !c.cNode.isShutdown() {
				f = append(f, "the controller's node is running after Stop")
			}
			if g.Intn(2) == 0 {
				g.note("controller stop again")
				c.Stop()
			}
		}
		return f
	}
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 1}, gLog(), NodeListenAddress(listen), NodeBroadcastAddress(bc))
	if !n.isShutdown() {
		f = append(f, "a node is running before Start")
	}
	if n.broadcastAddr.Port != 9 || n.listenAddr.Port != listen.Port {
		f = append(f, "an option has not been set")
	}
	for k := g.Intn(4); k > 0; k-- {
		if g.Intn(2) == 0 {
			g.note("node start, %v", listen)
			if g.Intn(3) == 0 {
				n.Config.OutputPorts = make([]OutputPort, 5)
				g.note("with 5 output ports")
			}
			n.Start()
		}
		for j := 1 + g.Intn(2); j > 0; j-- {
			g.note("node stop")
			n.Stop()
			if !n.isShutdown() {
				f = append(f, "the node is running after Stop")
			}
		}
	}
	return f
}

var gEndedDone int

// The tasks of a stopped node or controller end.
func H_C24_ended(g *vGen) (f []string) {
	if gEndedDone >= 4 {
		return nil
	}
	gEndedDone++
	bc := net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}
	listen := net.UDPAddr{IP: net.IP{127, 0, 0, 1}}
	before := runtime.NumGoroutine()
	if gEndedDone%2 == 0 {
		n := NewNode("n", code.StNode, net.IP{127, 0, 0, 1}, gLog(), NodeListenAddress(listen), NodeBroadcastAddress(bc))
		if n.Start() != nil {
			return nil
		}
		g.note("node started and stopped")
		time.Sleep(20 * time.Millisecond)
		n.Stop()
	} else {
		c := NewController("c", net.IP{127, 0, 0, 1}, gLog(), ListenAddress(listen), BroadcastAddr(bc))
		c.cNode.SetOption(NodeListenAddress(listen))
		c.cNode.SetOption(NodeBroadcastAddress(bc))
		if c.Start() != nil {
			return nil
		}
		g.note("controller started and stopped")
		time.Sleep(20 * time.Millisecond)
		c.Stop()
	}
	for i := 0; i < 300; i++ {
		if runtime.NumGoroutine() <= before {
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return []string{fmt.Sprintf("%d background tasks are still there 3 s after Stop", runtime.NumGoroutine()-before)}
}
