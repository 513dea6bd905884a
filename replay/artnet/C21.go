package artnet

import (
	"fmt"
	"net"
	"time"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

type gPacket struct {
	packet.ArtNetPacket
	op code.OpCode
}

func (p *gPacket) GetOpCode() code.OpCode { return p.op }

var gOps = []code.OpCode{code.OpPoll, code.OpPollReply, code.OpDMX, code.OpCommand, code.OpDiagData, code.OpSync, code.OpTodData, 0, 1, 0xffff, 0x1234}

func H_C21_dispatch(g *vGen) (f []string) {
	n := NewNode("n", code.StNode, net.IP{10, 0, 0, 1}, gLog())
	type call struct {
		id int
		p  packet.ArtNetPacket
	}
	calls := make(chan call, 100)
	reg := map[code.OpCode]int{}
	id := 0
	for k := 0; k < 12; k++ {
		op := gOps[g.Intn(len(gOps))]
		n.shutdown = g.Intn(3) > 0
		switch g.Intn(3) {
		case 0, 1:
			id++
			me := id
			n.RegisterCallback(op, func(p packet.ArtNetPacket) { calls <- call{me, p} })
			if n.shutdown {
				reg[op] = me
			}
			g.note("register %v (running: %v)", op, !n.shutdown)
		case 2:
			n.DeregisterCallback(op)
			if n.shutdown {
				reg[op] = -1
			}
			g.note("deregister %v (running: %v)", op, !n.shutdown)
		}
	}
	for _, op := range gOps {
		want, ok := reg[op]
		if !ok && (op == code.OpPoll || op == code.OpPollReply) {
			continue // the built-in handler
		}
		p := &gPacket{op: op}
		n.handlePacket(p)
		var got []call
		wait := 100 * time.Microsecond
		if want > 0 {
			wait = 2 * time.Second
		}
		select {
		case c := <-calls:
			got = append(got, c)
		case <-time.After(wait):
		}
		for len(calls) > 0 {
			got = append(got, <-calls)
		}
		if want > 0 && (len(got) != 1 || got[0].id != want || got[0].p != packet.ArtNetPacket(p)) {
			f = append(f, fmt.Sprintf("a packet of opcode %v was not passed once to its handler: %v", op, got))
		}
		if want <= 0 && len(got) > 0 {
			f = append(f, fmt.Sprintf("a packet of opcode %v without a handler was passed to %v", op, got))
		}
	}
	return f
}

func H_C21_builtin(g *vGen) (f []string) {
	styles := []code.StyleCode{code.StNode, code.StController, code.StMedia, code.StRoute, code.StBackup, code.StConfig, code.StVisual}
	st := styles[g.Intn(len(styles))]
	n := NewNode("n", st, net.IP{10, 0, 0, 1}, gLog())
	n.pollCh = make(chan packet.ArtPollPacket, 5)
	n.pollReplyCh = make(chan packet.ArtPollReplyPacket, 5)
	others := 0
	for k := g.Intn(4); k > 0; k-- {
		op := gOps[2+g.Intn(len(gOps)-2)]
		g.note("register %v", op)
		n.RegisterCallback(op, func(p packet.ArtNetPacket) { others++ })
	}
	replaced := 0
	mine := g.Intn(3) == 0
	if mine {
		g.note("register %v", code.OpPoll)
		n.RegisterCallback(code.OpPoll, func(p packet.ArtNetPacket) { replaced++ })
	}
	rep := packet.NewArtPollReplyPacket()
	rep.Oem = uint16(g.Intn(65536))
	rep.Port = 6454
	pb, err := packet.NewArtPollPacket().MarshalBinary()
	if err != nil {
		return nil
	}
	rb, err := rep.MarshalBinary()
	if err != nil {
		return nil
	}
	poll, err := packet.Unmarshal(pb)
	if err != nil {
		return nil
	}
	reply, err := packet.Unmarshal(rb)
	if err != nil {
		return nil
	}
	n.handlePacket(poll)
	if mine {
		if replaced != 1 || len(n.pollCh) != 0 {
			f = append(f, fmt.Sprintf("style %v: a poll was passed %d times to the handler that replaced the built-in one, and %d times to that", st, replaced, len(n.pollCh)))
		}
	} else if len(n.pollCh) != 1 || len(n.pollReplyCh) != 0 {
		f = append(f, fmt.Sprintf("style %v: a poll was not handled as a poll", st))
	}
	n.handlePacket(reply)
	if st == code.StController {
		if len(n.pollReplyCh) != 1 {
			f = append(f, "a controller did not consume a poll reply")
		} else if r := <-n.pollReplyCh; r.Oem != rep.Oem {
			f = append(f, "a poll reply was consumed in a changed form")
		}
	} else if len(n.pollReplyCh) != 0 {
		f = append(f, fmt.Sprintf("style %v consumed a poll reply", st))
	}
	if others > 0 {
		f = append(f, "a poll was passed to the handler of another opcode")
	}
	return f
}
