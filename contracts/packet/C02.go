// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

func C02_ArtPoll(p ArtPollPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtPollPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x2000 && d.GetOpCode() == 0x2000)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("TalkToMe comes back", d.TalkToMe == p.TalkToMe)
	vEnsure("Priority comes back", d.Priority == p.Priority)
	vReach("end")
}

func C02_ArtPollReply(p ArtPollReplyPacket) {
	vRequire(p.Port == 6454 && p.Style <= 6)
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtPollReplyPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x2100 && d.GetOpCode() == 0x2100)
	vEnsure("IPAddress comes back", vForall(0, 4, func(i int) bool { return d.IPAddress[i] == p.IPAddress[i] }))
	vEnsure("Port comes back", d.Port == p.Port)
	vEnsure("VersionInfo comes back", d.VersionInfo == p.VersionInfo)
	vEnsure("NetSwitch comes back", d.NetSwitch == p.NetSwitch)
	vEnsure("SubSwitch comes back", d.SubSwitch == p.SubSwitch)
	vEnsure("Oem comes back", d.Oem == p.Oem)
	vEnsure("UBEAVersion comes back", d.UBEAVersion == p.UBEAVersion)
	vEnsure("Status1 comes back", d.Status1 == p.Status1)
	vEnsure("ESTAmanufacturer comes back", vForall(0, 2, func(i int) bool { return d.ESTAmanufacturer[i] == p.ESTAmanufacturer[i] }))
	vEnsure("ShortName comes back", vForall(0, 18, func(i int) bool { return d.ShortName[i] == p.ShortName[i] }))
	vEnsure("LongName comes back", vForall(0, 64, func(i int) bool { return d.LongName[i] == p.LongName[i] }))
	vEnsure("NodeReport comes back", vForall(0, 64, func(i int) bool { return d.NodeReport[i] == p.NodeReport[i] }))
	vEnsure("NumPorts comes back", d.NumPorts == p.NumPorts)
	vEnsure("PortTypes comes back", vForall(0, 4, func(i int) bool { return d.PortTypes[i] == p.PortTypes[i] }))
	vEnsure("GoodInput comes back", vForall(0, 4, func(i int) bool { return d.GoodInput[i] == p.GoodInput[i] }))
	vEnsure("GoodOutput comes back", vForall(0, 4, func(i int) bool { return d.GoodOutput[i] == p.GoodOutput[i] }))
	vEnsure("SwIn comes back", vForall(0, 4, func(i int) bool { return d.SwIn[i] == p.SwIn[i] }))
	vEnsure("SwOut comes back", vForall(0, 4, func(i int) bool { return d.SwOut[i] == p.SwOut[i] }))
	vEnsure("SwVideo comes back", d.SwVideo == p.SwVideo)
	vEnsure("SwMacro comes back", d.SwMacro == p.SwMacro)
	vEnsure("SwRemote comes back", d.SwRemote == p.SwRemote)
	vEnsure("Style comes back", d.Style == p.Style)
	vEnsure("Macaddress comes back", vForall(0, 6, func(i int) bool { return d.Macaddress[i] == p.Macaddress[i] }))
	vEnsure("BindIP comes back", vForall(0, 4, func(i int) bool { return d.BindIP[i] == p.BindIP[i] }))
	vEnsure("BindIndex comes back", d.BindIndex == p.BindIndex)
	vEnsure("Status2 comes back", d.Status2 == p.Status2)
	vReach("end")
}

func C02_ArtDiagData(p ArtDiagDataPacket) {
	vRequire(p.Length <= 512)
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtDiagDataPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x2300 && d.GetOpCode() == 0x2300)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("Priority comes back", d.Priority == p.Priority)
	vEnsure("Length comes back", d.Length == p.Length)
	vEnsure("Data comes back", vForall(0, 512, func(i int) bool { return d.Data[i] == p.Data[i] }))
	vReach("end")
}

func C02_ArtCommand(p ArtCommandPacket) {
	vRequire(p.Length <= 512)
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtCommandPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x2400 && d.GetOpCode() == 0x2400)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("ESTAmanufacturer comes back", d.ESTAmanufacturer[0] == 0xff && d.ESTAmanufacturer[1] == 0xff)
	vEnsure("Length comes back", d.Length == p.Length)
	vEnsure("Data comes back", vForall(0, 512, func(i int) bool { return d.Data[i] == p.Data[i] }))
	vReach("end")
}

func C02_ArtDMX(p ArtDMXPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtDMXPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x5000 && d.GetOpCode() == 0x5000)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("Sequence comes back", d.Sequence == p.Sequence)
	vEnsure("Physical comes back", d.Physical == p.Physical)
	vEnsure("SubUni comes back", d.SubUni == p.SubUni)
	vEnsure("Net comes back", d.Net == p.Net)
	vEnsure("Length comes back", d.Length == 512)
	vEnsure("Data comes back", vForall(0, 512, func(i int) bool { return d.Data[i] == p.Data[i] }))
	vReach("end")
}

func C02_ArtNzs(p ArtNzsPacket) {
	vRequire(p.Length <= 512)
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtNzsPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x5100 && d.GetOpCode() == 0x5100)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("Sequence comes back", d.Sequence == p.Sequence)
	vEnsure("StartCode comes back", d.StartCode == p.StartCode)
	vEnsure("SubUni comes back", d.SubUni == p.SubUni)
	vEnsure("Net comes back", d.Net == p.Net)
	vEnsure("Length comes back", d.Length == p.Length)
	vEnsure("Data comes back", vForall(0, 512, func(i int) bool { return d.Data[i] == p.Data[i] }))
	vReach("end")
}

func C02_ArtSync(p ArtSyncPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtSyncPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x5200 && d.GetOpCode() == 0x5200)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vReach("end")
}

func C02_ArtAddress(p ArtAddressPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtAddressPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x6000 && d.GetOpCode() == 0x6000)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("NetSwitch comes back", d.NetSwitch == p.NetSwitch)
	vEnsure("BindIndex comes back", d.BindIndex == p.BindIndex)
	vEnsure("ShortName comes back", vForall(0, 18, func(i int) bool { return d.ShortName[i] == p.ShortName[i] }))
	vEnsure("LongName comes back", vForall(0, 64, func(i int) bool { return d.LongName[i] == p.LongName[i] }))
	vEnsure("SwIn comes back", vForall(0, 4, func(i int) bool { return d.SwIn[i] == p.SwIn[i] }))
	vEnsure("SwOut comes back", vForall(0, 4, func(i int) bool { return d.SwOut[i] == p.SwOut[i] }))
	vEnsure("SubSwitch comes back", d.SubSwitch == p.SubSwitch)
	vEnsure("SwVideo comes back", d.SwVideo == p.SwVideo)
	vEnsure("Command comes back", d.Command == p.Command)
	vReach("end")
}

func C02_ArtTimeCode(p ArtTimeCodePacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtTimeCodePacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x9700 && d.GetOpCode() == 0x9700)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("Frames comes back", d.Frames == p.Frames)
	vEnsure("Seconds comes back", d.Seconds == p.Seconds)
	vEnsure("Minutes comes back", d.Minutes == p.Minutes)
	vEnsure("Hours comes back", d.Hours == p.Hours)
	vEnsure("Type comes back", d.Type == p.Type)
	vReach("end")
}

func C02_ArtTrigger(p ArtTriggerPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtTriggerPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0x9900 && d.GetOpCode() == 0x9900)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("Oem comes back", d.Oem == p.Oem)
	vEnsure("Key comes back", d.Key == p.Key)
	vEnsure("SubKey comes back", d.SubKey == p.SubKey)
	vEnsure("Data comes back", vForall(0, 512, func(i int) bool { return d.Data[i] == p.Data[i] }))
	vReach("end")
}

func C02_ArtIPProg(p ArtIPProgPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtIPProgPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0xf800 && d.GetOpCode() == 0xf800)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("Command comes back", d.Command == p.Command)
	vEnsure("ProgIP comes back", vForall(0, 4, func(i int) bool { return d.ProgIP[i] == p.ProgIP[i] }))
	vEnsure("ProgSubNet comes back", vForall(0, 4, func(i int) bool { return d.ProgSubNet[i] == p.ProgSubNet[i] }))
	vEnsure("ProgPort comes back", vForall(0, 2, func(i int) bool { return d.ProgPort[i] == p.ProgPort[i] }))
	vReach("end")
}

func C02_ArtIPProgReply(p ArtIPProgReplyPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encodes", err == nil)
	r, err := Unmarshal(b)
	vEnsure("decodes", err == nil)
	vRequire(err == nil)
	d, ok := r.(*ArtIPProgReplyPacket)
	vEnsure("same type", ok && d != nil)
	vRequire(ok && d != nil)
	vEnsure("opcode", d.OpCode == 0xf900 && d.GetOpCode() == 0xf900)
	vEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)
	vEnsure("ProgIP comes back", vForall(0, 4, func(i int) bool { return d.ProgIP[i] == p.ProgIP[i] }))
	vEnsure("ProgSubNet comes back", vForall(0, 4, func(i int) bool { return d.ProgSubNet[i] == p.ProgSubNet[i] }))
	vEnsure("ProgPort comes back", vForall(0, 2, func(i int) bool { return d.ProgPort[i] == p.ProgPort[i] }))
	vEnsure("Status comes back", d.Status == p.Status)
	vReach("end")
}
