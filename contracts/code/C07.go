// Code generated by tools/mkcode.py from the Art-Net register tables. DO NOT EDIT.

package code

func C07_GoodInput_Receive(s GoodInput, on bool) {
	r := s.WithReceive(on)
	vEnsure("getter returns the choice", r.Receive() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.Receive() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_GoodInput_Disabled(s GoodInput, on bool) {
	r := s.WithDisabled(on)
	vEnsure("getter returns the choice", r.Disabled() == on)
	vEnsure("exactly bit 3 changes", r&^(1<<3) == s&^(1<<3))
	vEnsure("flag is bit 3", (r&(1<<3) != 0) == on)
	vEnsure("getter reads bit 3", s.Disabled() == (s&(1<<3) != 0))
	vReach("end")
}

func C07_GoodInput_Text(s GoodInput, on bool) {
	r := s.WithText(on)
	vEnsure("getter returns the choice", r.Text() == on)
	vEnsure("exactly bit 4 changes", r&^(1<<4) == s&^(1<<4))
	vEnsure("flag is bit 4", (r&(1<<4) != 0) == on)
	vEnsure("getter reads bit 4", s.Text() == (s&(1<<4) != 0))
	vReach("end")
}

func C07_GoodInput_SIP(s GoodInput, on bool) {
	r := s.WithSIP(on)
	vEnsure("getter returns the choice", r.SIP() == on)
	vEnsure("exactly bit 5 changes", r&^(1<<5) == s&^(1<<5))
	vEnsure("flag is bit 5", (r&(1<<5) != 0) == on)
	vEnsure("getter reads bit 5", s.SIP() == (s&(1<<5) != 0))
	vReach("end")
}

func C07_GoodInput_Test(s GoodInput, on bool) {
	r := s.WithTest(on)
	vEnsure("getter returns the choice", r.Test() == on)
	vEnsure("exactly bit 6 changes", r&^(1<<6) == s&^(1<<6))
	vEnsure("flag is bit 6", (r&(1<<6) != 0) == on)
	vEnsure("getter reads bit 6", s.Test() == (s&(1<<6) != 0))
	vReach("end")
}

func C07_GoodInput_Data(s GoodInput, on bool) {
	r := s.WithData(on)
	vEnsure("getter returns the choice", r.Data() == on)
	vEnsure("exactly bit 7 changes", r&^(1<<7) == s&^(1<<7))
	vEnsure("flag is bit 7", (r&(1<<7) != 0) == on)
	vEnsure("getter reads bit 7", s.Data() == (s&(1<<7) != 0))
	vReach("end")
}

func C07_GoodOutput_ACN(s GoodOutput, on bool) {
	r := s.WithACN(on)
	vEnsure("getter returns the choice", r.ACN() == on)
	vEnsure("exactly bit 0 changes", r&^(1<<0) == s&^(1<<0))
	vEnsure("flag is bit 0", (r&(1<<0) != 0) == on)
	vEnsure("getter reads bit 0", s.ACN() == (s&(1<<0) != 0))
	vReach("end")
}

func C07_GoodOutput_LTP(s GoodOutput, on bool) {
	r := s.WithLTP(on)
	vEnsure("getter returns the choice", r.LTP() == on)
	vEnsure("exactly bit 1 changes", r&^(1<<1) == s&^(1<<1))
	vEnsure("flag is bit 1", (r&(1<<1) != 0) == on)
	vEnsure("getter reads bit 1", s.LTP() == (s&(1<<1) != 0))
	vReach("end")
}

func C07_GoodOutput_Output(s GoodOutput, on bool) {
	r := s.WithOutput(on)
	vEnsure("getter returns the choice", r.Output() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.Output() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_GoodOutput_Merging(s GoodOutput, on bool) {
	r := s.WithMerging(on)
	vEnsure("getter returns the choice", r.Merging() == on)
	vEnsure("exactly bit 3 changes", r&^(1<<3) == s&^(1<<3))
	vEnsure("flag is bit 3", (r&(1<<3) != 0) == on)
	vEnsure("getter reads bit 3", s.Merging() == (s&(1<<3) != 0))
	vReach("end")
}

func C07_GoodOutput_Text(s GoodOutput, on bool) {
	r := s.WithText(on)
	vEnsure("getter returns the choice", r.Text() == on)
	vEnsure("exactly bit 4 changes", r&^(1<<4) == s&^(1<<4))
	vEnsure("flag is bit 4", (r&(1<<4) != 0) == on)
	vEnsure("getter reads bit 4", s.Text() == (s&(1<<4) != 0))
	vReach("end")
}

func C07_GoodOutput_SIP(s GoodOutput, on bool) {
	r := s.WithSIP(on)
	vEnsure("getter returns the choice", r.SIP() == on)
	vEnsure("exactly bit 5 changes", r&^(1<<5) == s&^(1<<5))
	vEnsure("flag is bit 5", (r&(1<<5) != 0) == on)
	vEnsure("getter reads bit 5", s.SIP() == (s&(1<<5) != 0))
	vReach("end")
}

func C07_GoodOutput_Test(s GoodOutput, on bool) {
	r := s.WithTest(on)
	vEnsure("getter returns the choice", r.Test() == on)
	vEnsure("exactly bit 6 changes", r&^(1<<6) == s&^(1<<6))
	vEnsure("flag is bit 6", (r&(1<<6) != 0) == on)
	vEnsure("getter reads bit 6", s.Test() == (s&(1<<6) != 0))
	vReach("end")
}

func C07_GoodOutput_Data(s GoodOutput, on bool) {
	r := s.WithData(on)
	vEnsure("getter returns the choice", r.Data() == on)
	vEnsure("exactly bit 7 changes", r&^(1<<7) == s&^(1<<7))
	vEnsure("flag is bit 7", (r&(1<<7) != 0) == on)
	vEnsure("getter reads bit 7", s.Data() == (s&(1<<7) != 0))
	vReach("end")
}

func C07_PortType_Output(s PortType, on bool) {
	r := s.WithOutput(on)
	vEnsure("getter returns the choice", r.Output() == on)
	vEnsure("exactly bit 7 changes", r&^(1<<7) == s&^(1<<7))
	vEnsure("flag is bit 7", (r&(1<<7) != 0) == on)
	vEnsure("getter reads bit 7", s.Output() == (s&(1<<7) != 0))
	vReach("end")
}

func C07_PortType_Input(s PortType, on bool) {
	r := s.WithInput(on)
	vEnsure("getter returns the choice", r.Input() == on)
	vEnsure("exactly bit 6 changes", r&^(1<<6) == s&^(1<<6))
	vEnsure("flag is bit 6", (r&(1<<6) != 0) == on)
	vEnsure("getter reads bit 6", s.Input() == (s&(1<<6) != 0))
	vReach("end")
}

func C07_Status1_UBEA(s Status1, on bool) {
	r := s.WithUBEA(on)
	vEnsure("getter returns the choice", r.UBEA() == on)
	vEnsure("exactly bit 0 changes", r&^(1<<0) == s&^(1<<0))
	vEnsure("flag is bit 0", (r&(1<<0) != 0) == on)
	vEnsure("getter reads bit 0", s.UBEA() == (s&(1<<0) != 0))
	vReach("end")
}

func C07_Status1_RDM(s Status1, on bool) {
	r := s.WithRDM(on)
	vEnsure("getter returns the choice", r.RDM() == on)
	vEnsure("exactly bit 1 changes", r&^(1<<1) == s&^(1<<1))
	vEnsure("flag is bit 1", (r&(1<<1) != 0) == on)
	vEnsure("getter reads bit 1", s.RDM() == (s&(1<<1) != 0))
	vReach("end")
}

func C07_Status1_BootROM(s Status1, on bool) {
	r := s.WithBootROM(on)
	vEnsure("getter returns the choice", r.BootROM() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.BootROM() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_Status2_Browser(s Status2, on bool) {
	r := s.WithBrowser(on)
	vEnsure("getter returns the choice", r.Browser() == on)
	vEnsure("exactly bit 0 changes", r&^(1<<0) == s&^(1<<0))
	vEnsure("flag is bit 0", (r&(1<<0) != 0) == on)
	vEnsure("getter reads bit 0", s.Browser() == (s&(1<<0) != 0))
	vReach("end")
}

func C07_Status2_DHCP(s Status2, on bool) {
	r := s.WithDHCP(on)
	vEnsure("getter returns the choice", r.DHCP() == on)
	vEnsure("exactly bit 1 changes", r&^(1<<1) == s&^(1<<1))
	vEnsure("flag is bit 1", (r&(1<<1) != 0) == on)
	vEnsure("getter reads bit 1", s.DHCP() == (s&(1<<1) != 0))
	vReach("end")
}

func C07_Status2_DHCPCapable(s Status2, on bool) {
	r := s.WithDHCPCapable(on)
	vEnsure("getter returns the choice", r.DHCPCapable() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.DHCPCapable() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_Status2_Port15(s Status2, on bool) {
	r := s.WithPort15(on)
	vEnsure("getter returns the choice", r.Port15() == on)
	vEnsure("exactly bit 3 changes", r&^(1<<3) == s&^(1<<3))
	vEnsure("flag is bit 3", (r&(1<<3) != 0) == on)
	vEnsure("getter reads bit 3", s.Port15() == (s&(1<<3) != 0))
	vReach("end")
}

func C07_Status2_Switch(s Status2, on bool) {
	r := s.WithSwitch(on)
	vEnsure("getter returns the choice", r.Switch() == on)
	vEnsure("exactly bit 4 changes", r&^(1<<4) == s&^(1<<4))
	vEnsure("flag is bit 4", (r&(1<<4) != 0) == on)
	vEnsure("getter reads bit 4", s.Switch() == (s&(1<<4) != 0))
	vReach("end")
}

func C07_Status2_Squawk(s Status2, on bool) {
	r := s.WithSquawk(on)
	vEnsure("getter returns the choice", r.Squawk() == on)
	vEnsure("exactly bit 5 changes", r&^(1<<5) == s&^(1<<5))
	vEnsure("flag is bit 5", (r&(1<<5) != 0) == on)
	vEnsure("getter reads bit 5", s.Squawk() == (s&(1<<5) != 0))
	vReach("end")
}

func C07_SwMacro_Macro1(s SwMacro, on bool) {
	r := s.WithMacro1(on)
	vEnsure("getter returns the choice", r.Macro1() == on)
	vEnsure("exactly bit 0 changes", r&^(1<<0) == s&^(1<<0))
	vEnsure("flag is bit 0", (r&(1<<0) != 0) == on)
	vEnsure("getter reads bit 0", s.Macro1() == (s&(1<<0) != 0))
	vReach("end")
}

func C07_SwMacro_Macro2(s SwMacro, on bool) {
	r := s.WithMacro2(on)
	vEnsure("getter returns the choice", r.Macro2() == on)
	vEnsure("exactly bit 1 changes", r&^(1<<1) == s&^(1<<1))
	vEnsure("flag is bit 1", (r&(1<<1) != 0) == on)
	vEnsure("getter reads bit 1", s.Macro2() == (s&(1<<1) != 0))
	vReach("end")
}

func C07_SwMacro_Macro3(s SwMacro, on bool) {
	r := s.WithMacro3(on)
	vEnsure("getter returns the choice", r.Macro3() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.Macro3() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_SwMacro_Macro4(s SwMacro, on bool) {
	r := s.WithMacro4(on)
	vEnsure("getter returns the choice", r.Macro4() == on)
	vEnsure("exactly bit 3 changes", r&^(1<<3) == s&^(1<<3))
	vEnsure("flag is bit 3", (r&(1<<3) != 0) == on)
	vEnsure("getter reads bit 3", s.Macro4() == (s&(1<<3) != 0))
	vReach("end")
}

func C07_SwMacro_Macro5(s SwMacro, on bool) {
	r := s.WithMacro5(on)
	vEnsure("getter returns the choice", r.Macro5() == on)
	vEnsure("exactly bit 4 changes", r&^(1<<4) == s&^(1<<4))
	vEnsure("flag is bit 4", (r&(1<<4) != 0) == on)
	vEnsure("getter reads bit 4", s.Macro5() == (s&(1<<4) != 0))
	vReach("end")
}

func C07_SwMacro_Macro6(s SwMacro, on bool) {
	r := s.WithMacro6(on)
	vEnsure("getter returns the choice", r.Macro6() == on)
	vEnsure("exactly bit 5 changes", r&^(1<<5) == s&^(1<<5))
	vEnsure("flag is bit 5", (r&(1<<5) != 0) == on)
	vEnsure("getter reads bit 5", s.Macro6() == (s&(1<<5) != 0))
	vReach("end")
}

func C07_SwMacro_Macro7(s SwMacro, on bool) {
	r := s.WithMacro7(on)
	vEnsure("getter returns the choice", r.Macro7() == on)
	vEnsure("exactly bit 6 changes", r&^(1<<6) == s&^(1<<6))
	vEnsure("flag is bit 6", (r&(1<<6) != 0) == on)
	vEnsure("getter reads bit 6", s.Macro7() == (s&(1<<6) != 0))
	vReach("end")
}

func C07_SwMacro_Macro8(s SwMacro, on bool) {
	r := s.WithMacro8(on)
	vEnsure("getter returns the choice", r.Macro8() == on)
	vEnsure("exactly bit 7 changes", r&^(1<<7) == s&^(1<<7))
	vEnsure("flag is bit 7", (r&(1<<7) != 0) == on)
	vEnsure("getter reads bit 7", s.Macro8() == (s&(1<<7) != 0))
	vReach("end")
}

func C07_SwRemote_Remote1(s SwRemote, on bool) {
	r := s.WithRemote1(on)
	vEnsure("getter returns the choice", r.Remote1() == on)
	vEnsure("exactly bit 0 changes", r&^(1<<0) == s&^(1<<0))
	vEnsure("flag is bit 0", (r&(1<<0) != 0) == on)
	vEnsure("getter reads bit 0", s.Remote1() == (s&(1<<0) != 0))
	vReach("end")
}

func C07_SwRemote_Remote2(s SwRemote, on bool) {
	r := s.WithRemote2(on)
	vEnsure("getter returns the choice", r.Remote2() == on)
	vEnsure("exactly bit 1 changes", r&^(1<<1) == s&^(1<<1))
	vEnsure("flag is bit 1", (r&(1<<1) != 0) == on)
	vEnsure("getter reads bit 1", s.Remote2() == (s&(1<<1) != 0))
	vReach("end")
}

func C07_SwRemote_Remote3(s SwRemote, on bool) {
	r := s.WithRemote3(on)
	vEnsure("getter returns the choice", r.Remote3() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.Remote3() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_SwRemote_Remote4(s SwRemote, on bool) {
	r := s.WithRemote4(on)
	vEnsure("getter returns the choice", r.Remote4() == on)
	vEnsure("exactly bit 3 changes", r&^(1<<3) == s&^(1<<3))
	vEnsure("flag is bit 3", (r&(1<<3) != 0) == on)
	vEnsure("getter reads bit 3", s.Remote4() == (s&(1<<3) != 0))
	vReach("end")
}

func C07_SwRemote_Remote5(s SwRemote, on bool) {
	r := s.WithRemote5(on)
	vEnsure("getter returns the choice", r.Remote5() == on)
	vEnsure("exactly bit 4 changes", r&^(1<<4) == s&^(1<<4))
	vEnsure("flag is bit 4", (r&(1<<4) != 0) == on)
	vEnsure("getter reads bit 4", s.Remote5() == (s&(1<<4) != 0))
	vReach("end")
}

func C07_SwRemote_Remote6(s SwRemote, on bool) {
	r := s.WithRemote6(on)
	vEnsure("getter returns the choice", r.Remote6() == on)
	vEnsure("exactly bit 5 changes", r&^(1<<5) == s&^(1<<5))
	vEnsure("flag is bit 5", (r&(1<<5) != 0) == on)
	vEnsure("getter reads bit 5", s.Remote6() == (s&(1<<5) != 0))
	vReach("end")
}

func C07_SwRemote_Remote7(s SwRemote, on bool) {
	r := s.WithRemote7(on)
	vEnsure("getter returns the choice", r.Remote7() == on)
	vEnsure("exactly bit 6 changes", r&^(1<<6) == s&^(1<<6))
	vEnsure("flag is bit 6", (r&(1<<6) != 0) == on)
	vEnsure("getter reads bit 6", s.Remote7() == (s&(1<<6) != 0))
	vReach("end")
}

func C07_SwRemote_Remote8(s SwRemote, on bool) {
	r := s.WithRemote8(on)
	vEnsure("getter returns the choice", r.Remote8() == on)
	vEnsure("exactly bit 7 changes", r&^(1<<7) == s&^(1<<7))
	vEnsure("flag is bit 7", (r&(1<<7) != 0) == on)
	vEnsure("getter reads bit 7", s.Remote8() == (s&(1<<7) != 0))
	vReach("end")
}

func C07_TalkToMe_ReplyOnChange(s TalkToMe, on bool) {
	r := s.WithReplyOnChange(on)
	vEnsure("getter returns the choice", r.ReplyOnChange() == on)
	vEnsure("exactly bit 1 changes", r&^(1<<1) == s&^(1<<1))
	vEnsure("flag is bit 1", (r&(1<<1) != 0) == on)
	vEnsure("getter reads bit 1", s.ReplyOnChange() == (s&(1<<1) != 0))
	vReach("end")
}

func C07_TalkToMe_Diagnostics(s TalkToMe, on bool) {
	r := s.WithDiagnostics(on)
	vEnsure("getter returns the choice", r.Diagnostics() == on)
	vEnsure("exactly bit 2 changes", r&^(1<<2) == s&^(1<<2))
	vEnsure("flag is bit 2", (r&(1<<2) != 0) == on)
	vEnsure("getter reads bit 2", s.Diagnostics() == (s&(1<<2) != 0))
	vReach("end")
}

func C07_TalkToMe_DiagUnicast(s TalkToMe, on bool) {
	r := s.WithDiagUnicast(on)
	vEnsure("getter returns the choice", r.DiagUnicast() == on)
	vEnsure("exactly bit 3 changes", r&^(1<<3) == s&^(1<<3))
	vEnsure("flag is bit 3", (r&(1<<3) != 0) == on)
	vEnsure("getter reads bit 3", s.DiagUnicast() == (s&(1<<3) != 0))
	vReach("end")
}

func C07_TalkToMe_VLC(s TalkToMe, on bool) {
	r := s.WithVLC(on)
	vEnsure("getter returns the choice", r.VLC() == on)
	vEnsure("exactly bit 4 changes", r&^(1<<4) == s&^(1<<4))
	vEnsure("flag is bit 4", (r&(1<<4) != 0) == on)
	vEnsure("getter reads bit 4", s.VLC() == (s&(1<<4) != 0))
	vReach("end")
}

func C07_Status1_WithPortAddr_unknown(s Status1) {
	r := s.WithPortAddr("unknown")
	vEnsure("reads back the value set", r.PortAddr() == "unknown")
	vEnsure("all other bits unchanged", r&^0x30 == s&^0x30)
	vEnsure("code 0 in its bits", (r&0x30)>>4 == 0)
	vReach("end")
}

func C07_Status1_WithPortAddr_front(s Status1) {
	r := s.WithPortAddr("front")
	vEnsure("reads back the value set", r.PortAddr() == "front")
	vEnsure("all other bits unchanged", r&^0x30 == s&^0x30)
	vEnsure("code 1 in its bits", (r&0x30)>>4 == 1)
	vReach("end")
}

func C07_Status1_WithPortAddr_net(s Status1) {
	r := s.WithPortAddr("net")
	vEnsure("reads back the value set", r.PortAddr() == "net")
	vEnsure("all other bits unchanged", r&^0x30 == s&^0x30)
	vEnsure("code 2 in its bits", (r&0x30)>>4 == 2)
	vReach("end")
}

func C07_Status1_WithPortAddr_unused(s Status1) {
	r := s.WithPortAddr("unused")
	vEnsure("reads back the value set", r.PortAddr() == "unused")
	vEnsure("all other bits unchanged", r&^0x30 == s&^0x30)
	vEnsure("code 3 in its bits", (r&0x30)>>4 == 3)
	vReach("end")
}

func C07_Status1_WithPortAddr_unrecognised(s Status1, v string) {
	vRequire(v != "unknown" && v != "front" && v != "net" && v != "unused")
	vEnsure("changes nothing", s.WithPortAddr(v) == s)
	vReach("end")
}

func C07_Status1_PortAddr_reads(s Status1) {
	x := Status1(vSplit8(uint8(s)))
	got := x.PortAddr()
	vEnsure("code 0 reads unknown", (got == "unknown") == ((x&0x30)>>4 == 0))
	vEnsure("code 1 reads front", (got == "front") == ((x&0x30)>>4 == 1))
	vEnsure("code 2 reads net", (got == "net") == ((x&0x30)>>4 == 2))
	vEnsure("code 3 reads unused", (got == "unused") == ((x&0x30)>>4 == 3))
}

func C07_Status1_WithIndicator_unknown(s Status1) {
	r := s.WithIndicator("unknown")
	vEnsure("reads back the value set", r.Indicator() == "unknown")
	vEnsure("all other bits unchanged", r&^0xc0 == s&^0xc0)
	vEnsure("code 0 in its bits", (r&0xc0)>>6 == 0)
	vReach("end")
}

func C07_Status1_WithIndicator_locate(s Status1) {
	r := s.WithIndicator("locate")
	vEnsure("reads back the value set", r.Indicator() == "locate")
	vEnsure("all other bits unchanged", r&^0xc0 == s&^0xc0)
	vEnsure("code 1 in its bits", (r&0xc0)>>6 == 1)
	vReach("end")
}

func C07_Status1_WithIndicator_mute(s Status1) {
	r := s.WithIndicator("mute")
	vEnsure("reads back the value set", r.Indicator() == "mute")
	vEnsure("all other bits unchanged", r&^0xc0 == s&^0xc0)
	vEnsure("code 2 in its bits", (r&0xc0)>>6 == 2)
	vReach("end")
}

func C07_Status1_WithIndicator_normal(s Status1) {
	r := s.WithIndicator("normal")
	vEnsure("reads back the value set", r.Indicator() == "normal")
	vEnsure("all other bits unchanged", r&^0xc0 == s&^0xc0)
	vEnsure("code 3 in its bits", (r&0xc0)>>6 == 3)
	vReach("end")
}

func C07_Status1_WithIndicator_unrecognised(s Status1, v string) {
	vRequire(v != "unknown" && v != "locate" && v != "mute" && v != "normal")
	vEnsure("changes nothing", s.WithIndicator(v) == s)
	vReach("end")
}

func C07_Status1_Indicator_reads(s Status1) {
	x := Status1(vSplit8(uint8(s)))
	got := x.Indicator()
	vEnsure("code 0 reads unknown", (got == "unknown") == ((x&0xc0)>>6 == 0))
	vEnsure("code 1 reads locate", (got == "locate") == ((x&0xc0)>>6 == 1))
	vEnsure("code 2 reads mute", (got == "mute") == ((x&0xc0)>>6 == 2))
	vEnsure("code 3 reads normal", (got == "normal") == ((x&0xc0)>>6 == 3))
}

func C07_PortType_WithType_DMX512(s PortType) {
	r := s.WithType("DMX512")
	vEnsure("reads back the value set", r.Type() == "DMX512")
	vEnsure("all other bits unchanged", r&^0x1f == s&^0x1f)
	vEnsure("code 0 in its bits", (r&0x1f)>>0 == 0)
	vReach("end")
}

func C07_PortType_WithType_MIDI(s PortType) {
	r := s.WithType("MIDI")
	vEnsure("reads back the value set", r.Type() == "MIDI")
	vEnsure("all other bits unchanged", r&^0x1f == s&^0x1f)
	vEnsure("code 1 in its bits", (r&0x1f)>>0 == 1)
	vReach("end")
}

func C07_PortType_WithType_Avab(s PortType) {
	r := s.WithType("Avab")
	vEnsure("reads back the value set", r.Type() == "Avab")
	vEnsure("all other bits unchanged", r&^0x1f == s&^0x1f)
	vEnsure("code 2 in its bits", (r&0x1f)>>0 == 2)
	vReach("end")
}

func C07_PortType_WithType_ColortranCMX(s PortType) {
	r := s.WithType("Colortran CMX")
	vEnsure("reads back the value set", r.Type() == "Colortran CMX")
	vEnsure("all other bits unchanged", r&^0x1f == s&^0x1f)
	vEnsure("code 3 in its bits", (r&0x1f)>>0 == 3)
	vReach("end")
}

func C07_PortType_WithType_ADB625(s PortType) {
	r := s.WithType("ADB 62.5")
	vEnsure("reads back the value set", r.Type() == "ADB 62.5")
	vEnsure("all other bits unchanged", r&^0x1f == s&^0x1f)
	vEnsure("code 4 in its bits", (r&0x1f)>>0 == 4)
	vReach("end")
}

func C07_PortType_WithType_ArtNet(s PortType) {
	r := s.WithType("Art-Net")
	vEnsure("reads back the value set", r.Type() == "Art-Net")
	vEnsure("all other bits unchanged", r&^0x1f == s&^0x1f)
	vEnsure("code 5 in its bits", (r&0x1f)>>0 == 5)
	vReach("end")
}

func C07_PortType_WithType_unrecognised(s PortType, v string) {
	vRequire(v != "DMX512" && v != "MIDI" && v != "Avab" && v != "Colortran CMX" && v != "ADB 62.5" && v != "Art-Net")
	vEnsure("changes nothing", s.WithType(v) == s)
	vReach("end")
}

func C07_PortType_Type_reads(s PortType) {
	x := PortType(vSplit8(uint8(s)))
	got := x.Type()
	vEnsure("code 0 reads DMX512", (got == "DMX512") == ((x&0x1f)>>0 == 0))
	vEnsure("code 1 reads MIDI", (got == "MIDI") == ((x&0x1f)>>0 == 1))
	vEnsure("code 2 reads Avab", (got == "Avab") == ((x&0x1f)>>0 == 2))
	vEnsure("code 3 reads Colortran CMX", (got == "Colortran CMX") == ((x&0x1f)>>0 == 3))
	vEnsure("code 4 reads ADB 62.5", (got == "ADB 62.5") == ((x&0x1f)>>0 == 4))
	vEnsure("code 5 reads Art-Net", (got == "Art-Net") == ((x&0x1f)>>0 == 5))
}
