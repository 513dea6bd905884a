// Code generated by tools/mkcode.py from the Art-Net register tables. DO NOT EDIT.

package code

import "fmt"

func vYesNo(c bool) string {
	if c {
		return "yes"
	}
	return "no"
}

func vOnOff(c bool) string {
	if c {
		return "on"
	}
	return "off"
}

func C08_GoodInput_text(s GoodInput) {
	x := GoodInput(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "GoodInput: ReceiveErrors: "+vYesNo(x&(1<<2) != 0)+", Disabled: "+vYesNo(x&(1<<3) != 0)+", DMX512Text: "+vYesNo(x&(1<<4) != 0)+", DMX512SIP: "+vYesNo(x&(1<<5) != 0)+", DMX512Test: "+vYesNo(x&(1<<6) != 0)+", DataReceived: "+vYesNo(x&(1<<7) != 0))
}

func C08_GoodOutput_text(s GoodOutput) {
	x := GoodOutput(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "GoodOutput: OutputACN: "+vYesNo(x&(1<<0) != 0)+", LTPMergeMode: "+vYesNo(x&(1<<1) != 0)+", OutputShort: "+vYesNo(x&(1<<2) != 0)+", Merging: "+vYesNo(x&(1<<3) != 0)+", DMX512Text: "+vYesNo(x&(1<<4) != 0)+", DMX512SIP: "+vYesNo(x&(1<<5) != 0)+", DMX512Test: "+vYesNo(x&(1<<6) != 0)+", DataSending: "+vYesNo(x&(1<<7) != 0))
}

func C08_PortType_text(s PortType) {
	x := PortType(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "PortType: Type: "+vPortProtocol(x)+", Output: "+vYesNo(x&(1<<7) != 0)+", Input: "+vYesNo(x&(1<<6) != 0))
}

func C08_Status1_text(s Status1) {
	x := Status1(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "Status1: UBEA: "+vYesNo(x&(1<<0) != 0)+", RDM: "+vYesNo(x&(1<<1) != 0)+", BootRom: "+vYesNo(x&(1<<2) != 0)+", PortAddr: "+vAuthority(x)+", Indicator: "+vIndicator(x))
}

func C08_Status2_text(s Status2) {
	x := Status2(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "Status2: Browser: "+vYesNo(x&(1<<0) != 0)+", DHCP: "+vYesNo(x&(1<<1) != 0)+", DHCPCapable: "+vYesNo(x&(1<<2) != 0)+", Port 15bit: "+vYesNo(x&(1<<3) != 0)+", CanSwitch: "+vYesNo(x&(1<<4) != 0)+", Squawking: "+vYesNo(x&(1<<5) != 0))
}

func C08_SwMacro_text(s SwMacro) {
	x := SwMacro(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "SwMacro: Macro1: "+vOnOff(x&(1<<0) != 0)+", Macro2: "+vOnOff(x&(1<<1) != 0)+", Macro3: "+vOnOff(x&(1<<2) != 0)+", Macro4: "+vOnOff(x&(1<<3) != 0)+", Macro5: "+vOnOff(x&(1<<4) != 0)+", Macro6: "+vOnOff(x&(1<<5) != 0)+", Macro7: "+vOnOff(x&(1<<6) != 0)+", Macro8: "+vOnOff(x&(1<<7) != 0))
}

func C08_SwRemote_text(s SwRemote) {
	x := SwRemote(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "SwRemote: Remote1: "+vOnOff(x&(1<<0) != 0)+", Remote2: "+vOnOff(x&(1<<1) != 0)+", Remote3: "+vOnOff(x&(1<<2) != 0)+", Remote4: "+vOnOff(x&(1<<3) != 0)+", Remote5: "+vOnOff(x&(1<<4) != 0)+", Remote6: "+vOnOff(x&(1<<5) != 0)+", Remote7: "+vOnOff(x&(1<<6) != 0)+", Remote8: "+vOnOff(x&(1<<7) != 0))
}

func C08_TalkToMe_text(s TalkToMe) {
	x := TalkToMe(vSplit8(uint8(s)))
	vEnsure("text reports every flag", x.String() == "TalkToMe: ReplyOnChange: "+vYesNo(x&(1<<1) != 0)+", Diagnostics: "+vYesNo(x&(1<<2) != 0)+" (as unicast: "+vYesNo(x&(1<<3) != 0)+"), VLC: "+vYesNo(x&(1<<4) != 0))
}

func vPortProtocol(x PortType) string {
	switch (x & 0x1f) >> 0 {
	case 0:
		return "DMX512"
	case 1:
		return "MIDI"
	case 2:
		return "Avab"
	case 3:
		return "Colortran CMX"
	case 4:
		return "ADB 62.5"
	case 5:
		return "Art-Net"
	}
	return "unknown"
}

func vAuthority(x Status1) string {
	switch (x & 0x30) >> 4 {
	case 0:
		return "unknown"
	case 1:
		return "front"
	case 2:
		return "net"
	case 3:
		return "unused"
	}
	return "error"
}

func vIndicator(x Status1) string {
	switch (x & 0xc0) >> 6 {
	case 0:
		return "unknown"
	case 1:
		return "locate"
	case 2:
		return "mute"
	case 3:
		return "normal"
	}
	return "error"
}

func C08_OpCode_OpPoll() {
	vEnsure("name", OpCode(0x2000).String() == "OpPoll")
	vEnsure("valid", ValidOp(OpCode(0x2000)))
}

func C08_OpCode_OpPollReply() {
	vEnsure("name", OpCode(0x2100).String() == "OpPollReply")
	vEnsure("valid", ValidOp(OpCode(0x2100)))
}

func C08_OpCode_OpDiagData() {
	vEnsure("name", OpCode(0x2300).String() == "OpDiagData")
	vEnsure("valid", ValidOp(OpCode(0x2300)))
}

func C08_OpCode_OpCommand() {
	vEnsure("name", OpCode(0x2400).String() == "OpCommand")
	vEnsure("valid", ValidOp(OpCode(0x2400)))
}

func C08_OpCode_OpOutput() {
	vEnsure("name", OpCode(0x5000).String() == "OpOutput")
	vEnsure("valid", ValidOp(OpCode(0x5000)))
}

func C08_OpCode_OpNzs() {
	vEnsure("name", OpCode(0x5100).String() == "OpNzs")
	vEnsure("valid", ValidOp(OpCode(0x5100)))
}

func C08_OpCode_OpSync() {
	vEnsure("name", OpCode(0x5200).String() == "OpSync")
	vEnsure("valid", ValidOp(OpCode(0x5200)))
}

func C08_OpCode_OpAddress() {
	vEnsure("name", OpCode(0x6000).String() == "OpAddress")
	vEnsure("valid", ValidOp(OpCode(0x6000)))
}

func C08_OpCode_OpInput() {
	vEnsure("name", OpCode(0x7000).String() == "OpInput")
	vEnsure("valid", ValidOp(OpCode(0x7000)))
}

func C08_OpCode_OpTodRequest() {
	vEnsure("name", OpCode(0x8000).String() == "OpTodRequest")
	vEnsure("valid", ValidOp(OpCode(0x8000)))
}

func C08_OpCode_OpTodData() {
	vEnsure("name", OpCode(0x8100).String() == "OpTodData")
	vEnsure("valid", ValidOp(OpCode(0x8100)))
}

func C08_OpCode_OpTodControl() {
	vEnsure("name", OpCode(0x8200).String() == "OpTodControl")
	vEnsure("valid", ValidOp(OpCode(0x8200)))
}

func C08_OpCode_OpRdm() {
	vEnsure("name", OpCode(0x8300).String() == "OpRdm")
	vEnsure("valid", ValidOp(OpCode(0x8300)))
}

func C08_OpCode_OpRdmSub() {
	vEnsure("name", OpCode(0x8400).String() == "OpRdmSub")
	vEnsure("valid", ValidOp(OpCode(0x8400)))
}

func C08_OpCode_OpMedia() {
	vEnsure("name", OpCode(0x9000).String() == "OpMedia")
	vEnsure("valid", ValidOp(OpCode(0x9000)))
}

func C08_OpCode_OpMediaPatch() {
	vEnsure("name", OpCode(0x9100).String() == "OpMediaPatch")
	vEnsure("valid", ValidOp(OpCode(0x9100)))
}

func C08_OpCode_OpMediaControl() {
	vEnsure("name", OpCode(0x9200).String() == "OpMediaControl")
	vEnsure("valid", ValidOp(OpCode(0x9200)))
}

func C08_OpCode_OpMediaContrlReply() {
	vEnsure("name", OpCode(0x9300).String() == "OpMediaContrlReply")
	vEnsure("valid", ValidOp(OpCode(0x9300)))
}

func C08_OpCode_OpTimeCode() {
	vEnsure("name", OpCode(0x9700).String() == "OpTimeCode")
	vEnsure("valid", ValidOp(OpCode(0x9700)))
}

func C08_OpCode_OpTimeSync() {
	vEnsure("name", OpCode(0x9800).String() == "OpTimeSync")
	vEnsure("valid", ValidOp(OpCode(0x9800)))
}

func C08_OpCode_OpTrigger() {
	vEnsure("name", OpCode(0x9900).String() == "OpTrigger")
	vEnsure("valid", ValidOp(OpCode(0x9900)))
}

func C08_OpCode_OpDirectory() {
	vEnsure("name", OpCode(0x9a00).String() == "OpDirectory")
	vEnsure("valid", ValidOp(OpCode(0x9a00)))
}

func C08_OpCode_OpDirectoryReply() {
	vEnsure("name", OpCode(0x9b00).String() == "OpDirectoryReply")
	vEnsure("valid", ValidOp(OpCode(0x9b00)))
}

func C08_OpCode_OpVideoSetup() {
	vEnsure("name", OpCode(0xa010).String() == "OpVideoSetup")
	vEnsure("valid", ValidOp(OpCode(0xa010)))
}

func C08_OpCode_OpVideoPalette() {
	vEnsure("name", OpCode(0xa020).String() == "OpVideoPalette")
	vEnsure("valid", ValidOp(OpCode(0xa020)))
}

func C08_OpCode_OpVideoData() {
	vEnsure("name", OpCode(0xa040).String() == "OpVideoData")
	vEnsure("valid", ValidOp(OpCode(0xa040)))
}

func C08_OpCode_OpMacMaster() {
	vEnsure("name", OpCode(0xf000).String() == "OpMacMaster")
	vEnsure("valid", ValidOp(OpCode(0xf000)))
}

func C08_OpCode_OpMacSlave() {
	vEnsure("name", OpCode(0xf100).String() == "OpMacSlave")
	vEnsure("valid", ValidOp(OpCode(0xf100)))
}

func C08_OpCode_OpFirmwareMaster() {
	vEnsure("name", OpCode(0xf200).String() == "OpFirmwareMaster")
	vEnsure("valid", ValidOp(OpCode(0xf200)))
}

func C08_OpCode_OpFirmwareReply() {
	vEnsure("name", OpCode(0xf300).String() == "OpFirmwareReply")
	vEnsure("valid", ValidOp(OpCode(0xf300)))
}

func C08_OpCode_OpFileTnMaster() {
	vEnsure("name", OpCode(0xf400).String() == "OpFileTnMaster")
	vEnsure("valid", ValidOp(OpCode(0xf400)))
}

func C08_OpCode_OpFileFnMaster() {
	vEnsure("name", OpCode(0xf500).String() == "OpFileFnMaster")
	vEnsure("valid", ValidOp(OpCode(0xf500)))
}

func C08_OpCode_OpFileFnReply() {
	vEnsure("name", OpCode(0xf600).String() == "OpFileFnReply")
	vEnsure("valid", ValidOp(OpCode(0xf600)))
}

func C08_OpCode_OpIPProg() {
	vEnsure("name", OpCode(0xf800).String() == "OpIPProg")
	vEnsure("valid", ValidOp(OpCode(0xf800)))
}

func C08_OpCode_OpIPProgReply() {
	vEnsure("name", OpCode(0xf900).String() == "OpIPProgReply")
	vEnsure("valid", ValidOp(OpCode(0xf900)))
}

func C08_OpCode_undefined(o OpCode) {
	vRequire(o != 0x2000 && o != 0x2100 && o != 0x2300 && o != 0x2400 && o != 0x5000 && o != 0x5100 && o != 0x5200 && o != 0x6000 && o != 0x7000 && o != 0x8000 && o != 0x8100 && o != 0x8200 && o != 0x8300 && o != 0x8400 && o != 0x9000 && o != 0x9100 && o != 0x9200 && o != 0x9300 && o != 0x9700 && o != 0x9800 && o != 0x9900 && o != 0x9a00 && o != 0x9b00 && o != 0xa010 && o != 0xa020 && o != 0xa040 && o != 0xf000 && o != 0xf100 && o != 0xf200 && o != 0xf300 && o != 0xf400 && o != 0xf500 && o != 0xf600 && o != 0xf800 && o != 0xf900)
	vEnsure("numeric rendering", o.String() == fmt.Sprintf("OpCode(%d)", uint16(o)))
	vEnsure("not valid", !ValidOp(o))
	vReach("end")
}

func C08_OpCode_constants() {
	vEnsure("opcode constants", OpPoll == 0x2000 && OpPollReply == 0x2100 && OpDiagData == 0x2300 && OpCommand == 0x2400 && OpOutput == 0x5000 && OpNzs == 0x5100 && OpSync == 0x5200 && OpAddress == 0x6000 && OpInput == 0x7000 && OpTodRequest == 0x8000 && OpTodData == 0x8100 && OpTodControl == 0x8200 && OpRdm == 0x8300 && OpRdmSub == 0x8400 && OpMedia == 0x9000 && OpMediaPatch == 0x9100 && OpMediaControl == 0x9200 && OpMediaContrlReply == 0x9300 && OpTimeCode == 0x9700 && OpTimeSync == 0x9800 && OpTrigger == 0x9900 && OpDirectory == 0x9a00 && OpDirectoryReply == 0x9b00 && OpVideoSetup == 0xa010 && OpVideoPalette == 0xa020 && OpVideoData == 0xa040 && OpMacMaster == 0xf000 && OpMacSlave == 0xf100 && OpFirmwareMaster == 0xf200 && OpFirmwareReply == 0xf300 && OpFileTnMaster == 0xf400 && OpFileFnMaster == 0xf500 && OpFileFnReply == 0xf600 && OpIPProg == 0xf800 && OpIPProgReply == 0xf900 && OpDMX == 0x5000)
}

func C08_StyleCode(s StyleCode) {
	x := StyleCode(vSplit8(uint8(s)))
	want := fmt.Sprintf("StyleCode(%d)", uint8(x))
	switch x {
	case 0:
		want = "Node"
	case 1:
		want = "Controller"
	case 2:
		want = "Media"
	case 3:
		want = "Route"
	case 4:
		want = "Backup"
	case 5:
		want = "Config"
	case 6:
		want = "Visual"
	}
	vEnsure("name", x.String() == want)
	vEnsure("valid exactly when defined", ValidStyle(x) == (x <= 6))
}

func C08_StyleCode_constants() {
	vEnsure("style constants", StNode == 0 && StController == 1 && StMedia == 2 && StRoute == 3 && StBackup == 4 && StConfig == 5 && StVisual == 6)
}

func C08_NodeReportCode(s NodeReportCode) {
	x := NodeReportCode(vSplit8(uint8(s)))
	want := fmt.Sprintf("NodeReportCode(%d)", uint8(x))
	switch x {
	case 0:
		want = "RcDebug"
	case 1:
		want = "RcPowerOk"
	case 2:
		want = "RcPowerFail"
	case 3:
		want = "RcSocketWr1"
	case 4:
		want = "RcParseFail"
	case 5:
		want = "RcUDPFail"
	case 6:
		want = "RcShNameOk"
	case 7:
		want = "RcLoNameOk"
	case 8:
		want = "RcDmxError"
	case 9:
		want = "RcDmxUDPFull"
	case 10:
		want = "RcDmxRxFull"
	case 11:
		want = "RcSwitchErr"
	case 12:
		want = "RcConfigErr"
	case 13:
		want = "RcDmxShort"
	case 14:
		want = "RcFirmwareFail"
	case 15:
		want = "RcUserFail"
	case 16:
		want = "RcFactoryRes"
	}
	vEnsure("name", x.String() == want)
}

func C08_NodeReportCode_constants() {
	vEnsure("report constants", RcDebug == 0 && RcPowerOk == 1 && RcPowerFail == 2 && RcSocketWr1 == 3 && RcParseFail == 4 && RcUDPFail == 5 && RcShNameOk == 6 && RcLoNameOk == 7 && RcDmxError == 8 && RcDmxUDPFull == 9 && RcDmxRxFull == 10 && RcSwitchErr == 11 && RcConfigErr == 12 && RcDmxShort == 13 && RcFirmwareFail == 14 && RcUserFail == 15 && RcFactoryRes == 16)
}

func C08_PriorityCode(s PriorityCode) {
	x := PriorityCode(vSplit8(uint8(s)))
	want := fmt.Sprintf("PriorityCode(%d)", uint8(x))
	switch x {
	case 0x0:
		want = "DpAll"
	case 0x10:
		want = "DpLow"
	case 0x40:
		want = "DpMed"
	case 0x80:
		want = "DpHigh"
	case 0xe0:
		want = "DpCritical"
	case 0xf0:
		want = "DpVolatile"
	}
	vEnsure("name", x.String() == want)
}

func C08_PriorityCode_constants() {
	vEnsure("priority constants", DpAll == 0x0 && DpLow == 0x10 && DpMed == 0x40 && DpHigh == 0x80 && DpCritical == 0xe0 && DpVolatile == 0xf0)
}
