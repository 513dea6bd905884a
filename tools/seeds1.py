SEEDS=[
dict(id='s01',property='C06',pkg='packet',needs='an ArtDmx datagram longer than its declared length',
 breaks='channels beyond the declared length are filled with trailing bytes of the datagram instead of zero',
 edits=[('packet/artdmx.go','copy(p.Data[0:l], b[18:18+l])','copy(p.Data[:], b[18:])')],
 demo='''
package packet
import "testing"
func TestSeedDemo(t *testing.T) {
	p := NewArtDMXPacket()
	b, _ := p.MarshalBinary()
	b[16], b[17] = 0, 4
	for i := 18; i < len(b); i++ { b[i] = 7 }
	q := &ArtDMXPacket{}
	if err := q.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	for i := 4; i < 512; i++ { if q.Data[i] != 0 { t.Fatalf("channel %d is %d", i, q.Data[i]) } }
}
'''),
dict(id='s02',property='C04',pkg='packet',needs='an ArtDmx datagram one or two bytes shorter than its declared length',
 breaks='the decoder slices beyond the datagram and panics',
 edits=[('packet/artdmx.go','if len(b) < l+18 ||','if len(b)+2 < l+18 ||')],
 demo='''
package packet
import "testing"
func TestSeedDemo(t *testing.T) {
	p := NewArtDMXPacket()
	b, _ := p.MarshalBinary()
	for n := 0; n < 3; n++ {
		c := append([]byte(nil), b[:len(b)-n]...)
		c = c[:len(c):len(c)]
		if _, err := Unmarshal(c); (err == nil) != (n == 0) { t.Fatalf("%d bytes short: %v", n, err) }
	}
}
'''),
dict(id='s03',property='C11',pkg='.',needs='a poll reply whose port count has a zero low byte, e.g. 256',
 breaks='announced ports are dropped when only the high byte of the port count is set',
 edits=[('config.go','i < int(p.NumPorts) && i < 4','i < int(uint8(p.NumPorts)) && i < 4')],
 demo='''
package artnet
import ("testing";"github.com/jsimonetti/go-artnet/packet")
func TestSeedDemo(t *testing.T) {
	p := packet.ArtPollReplyPacket{NumPorts: 256}
	for i := range p.PortTypes { p.PortTypes[i] = p.PortTypes[i].WithOutput(true) }
	if n := len(ConfigFromArtPollReply(p).OutputPorts); n != 4 { t.Fatal(n) }
}
'''),
dict(id='s04',property='C10',pkg='.',needs='a configuration with a port index used for input and output',
 breaks='a bidirectional port is announced as output only',
 edits=[('config.go','tmp = tmp.WithOutput(true)','tmp = tmp.WithOutput(true).WithInput(false)')],
 demo='''
package artnet
import "testing"
func TestSeedDemo(t *testing.T) {
	c := NodeConfig{InputPorts: []InputPort{{}}, OutputPorts: []OutputPort{{}, {}}}
	p := ArtPollReplyFromConfig(c)
	if !p.PortTypes[0].Input() || !p.PortTypes[0].Output() || p.PortTypes[1].Input() || !p.PortTypes[1].Output() { t.Fatal(p.PortTypes) }
}
'''),
dict(id='s05',property='C12',pkg='.',needs='two addresses whose nets differ by 128',
 breaks='two different addresses get the same number',
 edits=[('config.go','return int(uint16(a.Net)<<8 | uint16(a.SubUni))','return int(uint16(a.Net&0x7f)<<8 | uint16(a.SubUni))')],
 demo='''
package artnet
import "testing"
func TestSeedDemo(t *testing.T) {
	seen := map[int]Address{}
	for i := 0; i < 65536; i++ {
		a := Address{uint8(i>>8), uint8(i)}
		if b, ok := seen[a.Integer()]; ok { t.Fatal(a, b) }
		seen[a.Integer()] = a
	}
}
'''),
dict(id='s06',property='C13',pkg='.',needs='a known node announcing itself again without one of its universes',
 breaks='the universe table keeps leading to a node that no longer announces the universe',
 edits=[('controller.go','''			// remove references to this node from the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				delete(c.OutputAddress, port.Address)
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
			c.Nodes[i].Node = cfg
''','''			c.Nodes[i].Node = cfg
			// remove references to this node from the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				delete(c.OutputAddress, port.Address)
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
''')],
 demo='''
package artnet
import ("testing";"net")
func TestSeedDemo(t *testing.T) {
	c := NewController("c", net.IP{10,0,0,1}, NewDefaultLogger())
	c.OutputAddress = map[Address]*ControlledNode{}
	c.InputAddress = map[Address]*ControlledNode{}
	cfg := NodeConfig{IP: net.IP{10,0,0,2}, OutputPorts: []OutputPort{{Address: Address{0,1}}, {Address: Address{0,2}}}}
	c.updateNode(cfg)
	cfg.OutputPorts = cfg.OutputPorts[:1]
	c.updateNode(cfg)
	if _, ok := c.OutputAddress[Address{0,2}]; ok { t.Fatal("stale route") }
	if _, ok := c.OutputAddress[Address{0,1}]; !ok { t.Fatal("no route") }
}
'''),
dict(id='s07',property='C09',pkg='.',needs='a protocol mismatch on the fourth port',
 breaks='a configuration whose fourth port has two different protocols is accepted',
 edits=[('config.go','''	for i := 0; i < 4; i++ {
		if len(c.InputPorts) <= i ''','''	for i := 0; i < 3; i++ {
		if len(c.InputPorts) <= i ''')],
 demo='''
package artnet
import "testing"
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		c := NodeConfig{InputPorts: make([]InputPort, 4), OutputPorts: make([]OutputPort, 4)}
		c.InputPorts[i].Type = c.InputPorts[i].Type.WithType("MIDI")
		c.OutputPorts[i].Type = c.OutputPorts[i].Type.WithType("DMX512")
		if c.InputPorts[i].Type.Type() == c.OutputPorts[i].Type.Type() { continue }
		if c.validate() == nil { t.Fatal(i) }
	}
}
'''),
]
