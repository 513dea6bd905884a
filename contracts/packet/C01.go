// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

// ArtPoll: 14 bytes, opcode 0x2000.
func C01_ArtPoll(p ArtPollPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 14", len(b) == 14)
	vRequire(len(b) == 14)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x20 && b[10] == 0 && b[11] == 14)
	vEnsure("TalkToMe at 12", b[12] == byte(p.TalkToMe))
	vEnsure("Priority at 13", b[13] == byte(p.Priority))
	vReach("end")
}

func C01_ArtPoll_constructor() {
	b, err := NewArtPollPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 14)
	vRequire(len(b) == 14)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x20 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtPollReply: 239 bytes, opcode 0x2100.
func C01_ArtPollReply(p ArtPollReplyPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 239", len(b) == 239)
	vRequire(len(b) == 239)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x21)
	vEnsure("IPAddress at 10", vForall(0, 4, func(i int) bool { return b[10+i] == byte(p.IPAddress[i]) }))
	vEnsure("Port at 14", b[14] == byte(p.Port) && b[15] == byte(p.Port>>8))
	vEnsure("VersionInfo at 16", b[16] == byte(p.VersionInfo>>8) && b[17] == byte(p.VersionInfo))
	vEnsure("NetSwitch at 18", b[18] == byte(p.NetSwitch))
	vEnsure("SubSwitch at 19", b[19] == byte(p.SubSwitch))
	vEnsure("Oem at 20", b[20] == byte(p.Oem>>8) && b[21] == byte(p.Oem))
	vEnsure("UBEAVersion at 22", b[22] == byte(p.UBEAVersion))
	vEnsure("Status1 at 23", b[23] == byte(p.Status1))
	vEnsure("ESTAmanufacturer at 24", vForall(0, 2, func(i int) bool { return b[24+i] == byte(p.ESTAmanufacturer[i]) }))
	vEnsure("ShortName at 26", vForall(0, 18, func(i int) bool { return b[26+i] == byte(p.ShortName[i]) }))
	vEnsure("LongName at 44", vForall(0, 64, func(i int) bool { return b[44+i] == byte(p.LongName[i]) }))
	vEnsure("NodeReport at 108", vForall(0, 64, func(i int) bool { return b[108+i] == byte(p.NodeReport[i]) }))
	vEnsure("NumPorts at 172", b[172] == byte(p.NumPorts>>8) && b[173] == byte(p.NumPorts))
	vEnsure("PortTypes at 174", vForall(0, 4, func(i int) bool { return b[174+i] == byte(p.PortTypes[i]) }))
	vEnsure("GoodInput at 178", vForall(0, 4, func(i int) bool { return b[178+i] == byte(p.GoodInput[i]) }))
	vEnsure("GoodOutput at 182", vForall(0, 4, func(i int) bool { return b[182+i] == byte(p.GoodOutput[i]) }))
	vEnsure("SwIn at 186", vForall(0, 4, func(i int) bool { return b[186+i] == byte(p.SwIn[i]) }))
	vEnsure("SwOut at 190", vForall(0, 4, func(i int) bool { return b[190+i] == byte(p.SwOut[i]) }))
	vEnsure("SwVideo at 194", b[194] == byte(p.SwVideo))
	vEnsure("SwMacro at 195", b[195] == byte(p.SwMacro))
	vEnsure("SwRemote at 196", b[196] == byte(p.SwRemote))
	vEnsure("filler at 197", vForall(197, 200, func(i int) bool { return b[i] == 0 }))
	vEnsure("Style at 200", b[200] == byte(p.Style))
	vEnsure("Macaddress at 201", vForall(0, 6, func(i int) bool { return b[201+i] == byte(p.Macaddress[i]) }))
	vEnsure("BindIP at 207", vForall(0, 4, func(i int) bool { return b[207+i] == byte(p.BindIP[i]) }))
	vEnsure("BindIndex at 211", b[211] == byte(p.BindIndex))
	vEnsure("Status2 at 212", b[212] == byte(p.Status2))
	vEnsure("filler at 213", vForall(213, 239, func(i int) bool { return b[i] == 0 }))
	vReach("end")
}

func C01_ArtPollReply_constructor() {
	b, err := NewArtPollReplyPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 239)
	vRequire(len(b) == 239)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x21)
	vReach("end")
}

// ArtDiagData: 530 bytes, opcode 0x2300.
func C01_ArtDiagData(p ArtDiagDataPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 530", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x23 && b[10] == 0 && b[11] == 14)
	vEnsure("filler at 12", vForall(12, 13, func(i int) bool { return b[i] == 0 }))
	vEnsure("Priority at 13", b[13] == byte(p.Priority))
	vEnsure("filler at 14", vForall(14, 16, func(i int) bool { return b[i] == 0 }))
	vEnsure("Length at 16", b[16] == byte(p.Length>>8) && b[17] == byte(p.Length))
	vEnsure("Data at 18", vForall(0, 512, func(i int) bool { return b[18+i] == byte(p.Data[i]) }))
	vReach("end")
}

func C01_ArtDiagData_constructor() {
	b, err := NewArtDiagDataPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x23 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtCommand: 528 bytes, opcode 0x2400.
func C01_ArtCommand(p ArtCommandPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 528", len(b) == 528)
	vRequire(len(b) == 528)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x24 && b[10] == 0 && b[11] == 14)
	vEnsure("ESTAmanufacturer at 12", b[12] == 0xff && b[13] == 0xff)
	vEnsure("Length at 14", b[14] == byte(p.Length>>8) && b[15] == byte(p.Length))
	vEnsure("Data at 16", vForall(0, 512, func(i int) bool { return b[16+i] == byte(p.Data[i]) }))
	vReach("end")
}

func C01_ArtCommand_constructor() {
	b, err := NewArtCommandPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 528)
	vRequire(len(b) == 528)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x24 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtDMX: 530 bytes, opcode 0x5000.
func C01_ArtDMX(p ArtDMXPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 530", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x50 && b[10] == 0 && b[11] == 14)
	vEnsure("Sequence at 12", b[12] == byte(p.Sequence))
	vEnsure("Physical at 13", b[13] == byte(p.Physical))
	vEnsure("SubUni at 14", b[14] == byte(p.SubUni))
	vEnsure("Net at 15", b[15] == byte(p.Net))
	vEnsure("Length at 16", b[16] == 2 && b[17] == 0)
	vEnsure("Data at 18", vForall(0, 512, func(i int) bool { return b[18+i] == byte(p.Data[i]) }))
	vReach("end")
}

func C01_ArtDMX_constructor() {
	b, err := NewArtDMXPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x50 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtNzs: 530 bytes, opcode 0x5100.
func C01_ArtNzs(p ArtNzsPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 530", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x51 && b[10] == 0 && b[11] == 14)
	vEnsure("Sequence at 12", b[12] == byte(p.Sequence))
	vEnsure("StartCode at 13", b[13] == byte(p.StartCode))
	vEnsure("SubUni at 14", b[14] == byte(p.SubUni))
	vEnsure("Net at 15", b[15] == byte(p.Net))
	vEnsure("Length at 16", b[16] == byte(p.Length>>8) && b[17] == byte(p.Length))
	vEnsure("Data at 18", vForall(0, 512, func(i int) bool { return b[18+i] == byte(p.Data[i]) }))
	vReach("end")
}

func C01_ArtNzs_constructor() {
	b, err := NewArtNzsPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x51 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtSync: 14 bytes, opcode 0x5200.
func C01_ArtSync(p ArtSyncPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 14", len(b) == 14)
	vRequire(len(b) == 14)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x52 && b[10] == 0 && b[11] == 14)
	vEnsure("filler at 12", vForall(12, 14, func(i int) bool { return b[i] == 0 }))
	vReach("end")
}

func C01_ArtSync_constructor() {
	b, err := NewArtSyncPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 14)
	vRequire(len(b) == 14)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x52 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtAddress: 107 bytes, opcode 0x6000.
func C01_ArtAddress(p ArtAddressPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 107", len(b) == 107)
	vRequire(len(b) == 107)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x60 && b[10] == 0 && b[11] == 14)
	vEnsure("NetSwitch at 12", b[12] == byte(p.NetSwitch))
	vEnsure("BindIndex at 13", b[13] == byte(p.BindIndex))
	vEnsure("ShortName at 14", vForall(0, 18, func(i int) bool { return b[14+i] == byte(p.ShortName[i]) }))
	vEnsure("LongName at 32", vForall(0, 64, func(i int) bool { return b[32+i] == byte(p.LongName[i]) }))
	vEnsure("SwIn at 96", vForall(0, 4, func(i int) bool { return b[96+i] == byte(p.SwIn[i]) }))
	vEnsure("SwOut at 100", vForall(0, 4, func(i int) bool { return b[100+i] == byte(p.SwOut[i]) }))
	vEnsure("SubSwitch at 104", b[104] == byte(p.SubSwitch))
	vEnsure("SwVideo at 105", b[105] == byte(p.SwVideo))
	vEnsure("Command at 106", b[106] == byte(p.Command))
	vReach("end")
}

func C01_ArtAddress_constructor() {
	b, err := NewArtAddressPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 107)
	vRequire(len(b) == 107)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x60 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtTimeCode: 19 bytes, opcode 0x9700.
func C01_ArtTimeCode(p ArtTimeCodePacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 19", len(b) == 19)
	vRequire(len(b) == 19)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x97 && b[10] == 0 && b[11] == 14)
	vEnsure("filler at 12", vForall(12, 14, func(i int) bool { return b[i] == 0 }))
	vEnsure("Frames at 14", b[14] == byte(p.Frames))
	vEnsure("Seconds at 15", b[15] == byte(p.Seconds))
	vEnsure("Minutes at 16", b[16] == byte(p.Minutes))
	vEnsure("Hours at 17", b[17] == byte(p.Hours))
	vEnsure("Type at 18", b[18] == byte(p.Type))
	vReach("end")
}

func C01_ArtTimeCode_constructor() {
	b, err := NewArtTimeCodePacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 19)
	vRequire(len(b) == 19)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x97 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtTrigger: 530 bytes, opcode 0x9900.
func C01_ArtTrigger(p ArtTriggerPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 530", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0x99 && b[10] == 0 && b[11] == 14)
	vEnsure("filler at 12", vForall(12, 14, func(i int) bool { return b[i] == 0 }))
	vEnsure("Oem at 14", b[14] == byte(p.Oem>>8) && b[15] == byte(p.Oem))
	vEnsure("Key at 16", b[16] == byte(p.Key))
	vEnsure("SubKey at 17", b[17] == byte(p.SubKey))
	vEnsure("Data at 18", vForall(0, 512, func(i int) bool { return b[18+i] == byte(p.Data[i]) }))
	vReach("end")
}

func C01_ArtTrigger_constructor() {
	b, err := NewArtTriggerPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 530)
	vRequire(len(b) == 530)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0x99 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtIPProg: 34 bytes, opcode 0xf800.
func C01_ArtIPProg(p ArtIPProgPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 34", len(b) == 34)
	vRequire(len(b) == 34)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0xf8 && b[10] == 0 && b[11] == 14)
	vEnsure("filler at 12", vForall(12, 14, func(i int) bool { return b[i] == 0 }))
	vEnsure("Command at 14", b[14] == byte(p.Command))
	vEnsure("filler at 15", vForall(15, 16, func(i int) bool { return b[i] == 0 }))
	vEnsure("ProgIP at 16", vForall(0, 4, func(i int) bool { return b[16+i] == byte(p.ProgIP[i]) }))
	vEnsure("ProgSubNet at 20", vForall(0, 4, func(i int) bool { return b[20+i] == byte(p.ProgSubNet[i]) }))
	vEnsure("ProgPort at 24", vForall(0, 2, func(i int) bool { return b[24+i] == byte(p.ProgPort[i]) }))
	vEnsure("filler at 26", vForall(26, 34, func(i int) bool { return b[i] == 0 }))
	vReach("end")
}

func C01_ArtIPProg_constructor() {
	b, err := NewArtIPProgPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 34)
	vRequire(len(b) == 34)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0xf8 && b[10] == 0 && b[11] == 14)
	vReach("end")
}

// ArtIPProgReply: 34 bytes, opcode 0xf900.
func C01_ArtIPProgReply(p ArtIPProgReplyPacket) {
	q := p
	b, err := q.MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("fixed size 34", len(b) == 34)
	vRequire(len(b) == 34)
	vEnsure("identifier, opcode, version", vID(b) && b[8] == 0x00 && b[9] == 0xf9 && b[10] == 0 && b[11] == 14)
	vEnsure("filler at 12", vForall(12, 16, func(i int) bool { return b[i] == 0 }))
	vEnsure("ProgIP at 16", vForall(0, 4, func(i int) bool { return b[16+i] == byte(p.ProgIP[i]) }))
	vEnsure("ProgSubNet at 20", vForall(0, 4, func(i int) bool { return b[20+i] == byte(p.ProgSubNet[i]) }))
	vEnsure("ProgPort at 24", vForall(0, 2, func(i int) bool { return b[24+i] == byte(p.ProgPort[i]) }))
	vEnsure("Status at 26", b[26] == byte(p.Status))
	vEnsure("filler at 27", vForall(27, 34, func(i int) bool { return b[i] == 0 }))
	vReach("end")
}

func C01_ArtIPProgReply_constructor() {
	b, err := NewArtIPProgReplyPacket().MarshalBinary()
	vEnsure("encoding succeeds", err == nil)
	vEnsure("size", len(b) == 34)
	vRequire(len(b) == 34)
	vEnsure("own opcode", vID(b) && b[8] == 0x00 && b[9] == 0xf9 && b[10] == 0 && b[11] == 14)
	vReach("end")
}
