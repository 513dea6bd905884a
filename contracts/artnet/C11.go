package artnet

import (
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func C11_identity(p packet.ArtPollReplyPacket) {
	c := ConfigFromArtPollReply(p)
	vEnsure("oem", c.OEM == p.Oem)
	vEnsure("versions", c.Version == p.VersionInfo && c.BiosVersion == p.UBEAVersion)
	vEnsure("style", c.Type == p.Style)
	vEnsure("status", c.Status1 == p.Status1 && c.Status2 == p.Status2)
	vEnsure("bind index", c.BindIndex == p.BindIndex)
	vEnsure("port", c.Port == p.Port)
	vEnsure("report", len(c.Report) == 64 && vForall(0, 64, func(i int) bool { return c.Report[i] == p.NodeReport[i] }))
	vEnsure("hardware address", len(c.Ethernet) == 6 && vForall(0, 6, func(i int) bool { return c.Ethernet[i] == p.Macaddress[i] }))
	vEnsure("ip address", len(c.IP) == 4 && vForall(0, 4, func(i int) bool { return c.IP[i] == p.IPAddress[i] }))
	vEnsure("bind ip", len(c.BindIP) == 4 && vForall(0, 4, func(i int) bool { return c.BindIP[i] == p.BindIP[i] }))
	vEnsure("base address", c.BaseAddress.Net == p.NetSwitch&0x7f && c.BaseAddress.SubUni == p.SubSwitch<<4)
	vReach("end")
}

// vText: s is the text of the field b: the bytes before the first NUL (all if there is none).
func vText(s string, b []byte) bool {
	return len(s) <= len(b) &&
		vForall(0, len(b), func(i int) bool {
			if i < len(s) {
				return b[i] != 0 && s[i] == b[i]
			}
			return i > len(s) || b[i] == 0
		})
}

func C11_names(p packet.ArtPollReplyPacket) {
	vRequire(vForall(0, 18, func(i int) bool { return p.ShortName[i] < 0x80 }))
	vRequire(vForall(0, 64, func(i int) bool { return p.LongName[i] < 0x80 }))
	vRequire(p.ESTAmanufacturer[0] < 0x80 && p.ESTAmanufacturer[1] < 0x80)
	c := ConfigFromArtPollReply(p)
	vEnsure("short name", vText(c.Name, p.ShortName[:]))
	vEnsure("long name", vText(c.Description, p.LongName[:]))
	vEnsure("manufacturer", vText(c.Manufacturer, p.ESTAmanufacturer[:]))
	vReach("end")
}

func vMin4(n uint16) int {
	if n > 4 {
		return 4
	}
	return int(n)
}

func C11_output_ports(p packet.ArtPollReplyPacket) {
	c := ConfigFromArtPollReply(p)
	k := 0
	n := vMin4(p.NumPorts)
	for i := 0; i < 4; i++ {
		if i < n && p.PortTypes[i]&0x80 != 0 {
			vEnsure("announced output present", k < len(c.OutputPorts))
			vRequire(k < len(c.OutputPorts))
			o := c.OutputPorts[k]
			vEnsure("output universe", o.Address.Net == p.NetSwitch&0x7f && o.Address.SubUni == p.SubSwitch<<4|p.SwOut[i]&0x0f)
			vEnsure("output type and status", o.Type == p.PortTypes[i] && o.Status == p.GoodOutput[i])
			vReach("port")
			k++
		}
	}
	vEnsure("no other outputs", len(c.OutputPorts) == k)
}

func C11_input_ports(p packet.ArtPollReplyPacket) {
	c := ConfigFromArtPollReply(p)
	k := 0
	n := vMin4(p.NumPorts)
	for i := 0; i < 4; i++ {
		if i < n && p.PortTypes[i]&0x40 != 0 {
			vEnsure("announced input present", k < len(c.InputPorts))
			vRequire(k < len(c.InputPorts))
			o := c.InputPorts[k]
			vEnsure("input universe", o.Address.Net == p.NetSwitch&0x7f && o.Address.SubUni == p.SubSwitch<<4|p.SwIn[i]&0x0f)
			vEnsure("input type and status", o.Type == p.PortTypes[i] && o.Status == p.GoodInput[i])
			vReach("port")
			k++
		}
	}
	vEnsure("no other inputs", len(c.InputPorts) == k)
}

// A valid configuration's announcement is read back with the same base address and directions.
func C11_announcement_read_back(c NodeConfig) {
	vRequire(len(c.InputPorts) <= 4 && len(c.OutputPorts) <= 4)
	vRequire(vForall(0, 4, func(i int) bool { return i >= len(c.InputPorts) || c.InputPorts[i].Type&0x1f == 0 }))
	vRequire(vForall(0, 4, func(i int) bool { return i >= len(c.OutputPorts) || c.OutputPorts[i].Type&0x1f == 0 }))
	vRequire(c.BaseAddress.Net < 0x80 && c.BaseAddress.SubUni&0x0f == 0)
	d := ConfigFromArtPollReply(*ArtPollReplyFromConfig(c))
	vEnsure("base address", d.BaseAddress == c.BaseAddress)
	vEnsure("as many ports", len(d.InputPorts) == len(c.InputPorts) && len(d.OutputPorts) == len(c.OutputPorts))
	vEnsure("identity", d.OEM == c.OEM && d.Type == c.Type && d.Port == 6454)
	vReach("end")
}

var _ code.PortType
