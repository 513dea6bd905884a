package artnet

import (
	"fmt"
	"net"
	"runtime"
	"time"

	"github.com/jsimonetti/go-artnet/packet/code"
)

func H_C09_start(g *vGen) (f []string) {
	defer func() {
		if x := recover(); x != nil {
			f = append(f, fmt.Sprintf("panic: %v", x))
		}
	}()
	free, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		return nil
	}
	addr := *free.LocalAddr().(*net.UDPAddr)
	busy := g.Intn(2) == 0
	if busy {
		defer free.Close()
	} else {
		free.Close()
	}
	n := NewNode("n", code.StNode, net.IP{127, 0, 0, 1}, gLog(), NodeListenAddress(addr), NodeBroadcastAddress(net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 9}))
	in, out := g.Intn(6), g.Intn(6)
	for i := 0; i < in; i++ {
		n.Config.InputPorts = append(n.Config.InputPorts, InputPort{Type: code.PortType(g.Intn(3))})
	}
	for i := 0; i < out; i++ {
		n.Config.OutputPorts = append(n.Config.OutputPorts, OutputPort{Type: code.PortType(g.Intn(3))})
	}
	want := in <= 4 && out <= 4
	for i := 0; i < in && i < out; i++ {
		want = want && n.Config.InputPorts[i].Type == n.Config.OutputPorts[i].Type
	}
	g.note("start with input ports %v and output ports %v", n.Config.InputPorts, n.Config.OutputPorts)
	before := runtime.NumGoroutine()
	err = n.Start()
	if want {
		if err == nil {
			n.Stop()
		}
		return nil
	}
	if err == nil {
		n.Stop()
		return append(f, "the configuration is accepted")
	}
	if n.Connection() != nil {
		f = append(f, "a socket was opened before the configuration was refused")
	}
	if busy {
		g.note("the listen address is in use")
		if _, ok := err.(*net.OpError); ok {
			f = append(f, fmt.Sprintf("opening a socket was tried before the configuration was looked at: %v", err))
		}
		return f
	}
	for k := 0; runtime.NumGoroutine() > before; k++ {
		if k > 50 {
			f = append(f, fmt.Sprintf("%d background tasks after the configuration was refused", runtime.NumGoroutine()-before))
			break
		}
		time.Sleep(time.Millisecond)
	}
	again, err := net.ListenUDP("udp4", &addr)
	if err != nil {
		return append(f, fmt.Sprintf("a socket is open after the configuration was refused: %v", err))
	}
	again.Close()
	return f
}
