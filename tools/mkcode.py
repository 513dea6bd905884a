#!/usr/bin/env python3
"""Writes the contract files of C07 and C08 (package code) from the register and code tables of the
Art-Net 4 specification."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'contracts', 'code')
REG = {
 'GoodInput': ('GoodInput: ', [('Receive', 2, 'ReceiveErrors'), ('Disabled', 3, 'Disabled'), ('Text', 4, 'DMX512Text'), ('SIP', 5, 'DMX512SIP'), ('Test', 6, 'DMX512Test'), ('Data', 7, 'DataReceived')]),
 'GoodOutput': ('GoodOutput: ', [('ACN', 0, 'OutputACN'), ('LTP', 1, 'LTPMergeMode'), ('Output', 2, 'OutputShort'), ('Merging', 3, 'Merging'), ('Text', 4, 'DMX512Text'), ('SIP', 5, 'DMX512SIP'), ('Test', 6, 'DMX512Test'), ('Data', 7, 'DataSending')]),
 'PortType': (None, [('Output', 7, 'Output'), ('Input', 6, 'Input')]),
 'Status1': (None, [('UBEA', 0, 'UBEA'), ('RDM', 1, 'RDM'), ('BootROM', 2, 'BootRom')]),
 'Status2': ('Status2: ', [('Browser', 0, 'Browser'), ('DHCP', 1, 'DHCP'), ('DHCPCapable', 2, 'DHCPCapable'), ('Port15', 3, 'Port 15bit'), ('Switch', 4, 'CanSwitch'), ('Squawk', 5, 'Squawking')]),
 'SwMacro': ('SwMacro: ', [(f'Macro{i}', i-1, f'Macro{i}') for i in range(1, 9)]),
 'SwRemote': ('SwRemote: ', [(f'Remote{i}', i-1, f'Remote{i}') for i in range(1, 9)]),
 'TalkToMe': (None, [('ReplyOnChange', 1, ''), ('Diagnostics', 2, ''), ('DiagUnicast', 3, ''), ('VLC', 4, '')]),
}
MULTI = [  # type, setter, getter, shift, mask, values (index = code), fallback
 ('Status1', 'WithPortAddr', 'PortAddr', 4, 0x30, ['unknown', 'front', 'net', 'unused']),
 ('Status1', 'WithIndicator', 'Indicator', 6, 0xc0, ['unknown', 'locate', 'mute', 'normal']),
 ('PortType', 'WithType', 'Type', 0, 0x1f, ['DMX512', 'MIDI', 'Avab', 'Colortran CMX', 'ADB 62.5', 'Art-Net']),
]
OPS = {'OpPoll': 0x2000, 'OpPollReply': 0x2100, 'OpDiagData': 0x2300, 'OpCommand': 0x2400, 'OpOutput': 0x5000, 'OpNzs': 0x5100, 'OpSync': 0x5200,
 'OpAddress': 0x6000, 'OpInput': 0x7000, 'OpTodRequest': 0x8000, 'OpTodData': 0x8100, 'OpTodControl': 0x8200, 'OpRdm': 0x8300, 'OpRdmSub': 0x8400,
 'OpMedia': 0x9000, 'OpMediaPatch': 0x9100, 'OpMediaControl': 0x9200, 'OpMediaContrlReply': 0x9300, 'OpTimeCode': 0x9700, 'OpTimeSync': 0x9800,
 'OpTrigger': 0x9900, 'OpDirectory': 0x9a00, 'OpDirectoryReply': 0x9b00, 'OpVideoSetup': 0xa010, 'OpVideoPalette': 0xa020, 'OpVideoData': 0xa040,
 'OpMacMaster': 0xf000, 'OpMacSlave': 0xf100, 'OpFirmwareMaster': 0xf200, 'OpFirmwareReply': 0xf300, 'OpFileTnMaster': 0xf400,
 'OpFileFnMaster': 0xf500, 'OpFileFnReply': 0xf600, 'OpIPProg': 0xf800, 'OpIPProgReply': 0xf900}
REPORT = ['RcDebug', 'RcPowerOk', 'RcPowerFail', 'RcSocketWr1', 'RcParseFail', 'RcUDPFail', 'RcShNameOk', 'RcLoNameOk', 'RcDmxError', 'RcDmxUDPFull',
 'RcDmxRxFull', 'RcSwitchErr', 'RcConfigErr', 'RcDmxShort', 'RcFirmwareFail', 'RcUserFail', 'RcFactoryRes']
STYLE = ['Node', 'Controller', 'Media', 'Route', 'Backup', 'Config', 'Visual']
PRIO = {'DpAll': 0, 'DpLow': 0x10, 'DpMed': 0x40, 'DpHigh': 0x80, 'DpCritical': 0xe0, 'DpVolatile': 0xf0}
HEAD = '// Code generated by tools/mkcode.py from the Art-Net register tables. DO NOT EDIT.\n\npackage code\n\n'

def main():
    c7 = HEAD
    for t, (_, fl) in REG.items():
        for g, bit, _ in fl:
            c7 += f'''func C07_{t}_{g}(s {t}, on bool) {{
	r := s.With{g}(on)
	vEnsure("getter returns the choice", r.{g}() == on)
	vEnsure("exactly bit {bit} changes", r&^(1<<{bit}) == s&^(1<<{bit}))
	vEnsure("flag is bit {bit}", (r&(1<<{bit}) != 0) == on)
	vEnsure("getter reads bit {bit}", s.{g}() == (s&(1<<{bit}) != 0))
	vReach("end")
}}

'''
    for t, setter, getter, sh, mask, vals in MULTI:
        for i, v in enumerate(vals):
            ident = v.replace(' ', '').replace('.', '').replace('-', '')
            c7 += f'''func C07_{t}_{setter}_{ident}(s {t}) {{
	r := s.{setter}("{v}")
	vEnsure("reads back the value set", r.{getter}() == "{v}")
	vEnsure("all other bits unchanged", r&^{mask:#x} == s&^{mask:#x})
	vEnsure("code {i} in its bits", (r&{mask:#x})>>{sh} == {i})
	vReach("end")
}}

'''
        other = ' && '.join(f'v != "{v}"' for v in vals)
        c7 += f'''func C07_{t}_{setter}_unrecognised(s {t}, v string) {{
	vRequire({other})
	vEnsure("changes nothing", s.{setter}(v) == s)
	vReach("end")
}}

func C07_{t}_{getter}_reads(s {t}) {{
	x := {t}(vSplit8(uint8(s)))
	got := x.{getter}()
'''
        for i, v in enumerate(vals):
            c7 += f'\tvEnsure("code {i} reads {v}", (got == "{v}") == ((x&{mask:#x})>>{sh} == {i}))\n'
        c7 += '}\n\n'
    c8 = HEAD.replace('package code\n', 'package code\n\nimport "fmt"\n')
    c8 += '''func vYesNo(c bool) string {
	if c {
		return "yes"
	}
	return "no"
}

func vOnOff(c bool) string {
	if c {
		return "on"
	}
	return "off"
}

'''
    for t, (pre, fl) in REG.items():
        w = 'vOnOff' if t.startswith('Sw') else 'vYesNo'
        bit = lambda b: f'{w}(x&(1<<{b}) != 0)'
        if pre:
            txt = f'"{pre}' + ' + ", '.join(f'{lab}: " + {bit(b)}' for _, b, lab in fl)
        elif t == 'PortType':
            txt = f'"PortType: Type: " + vPortProtocol(x) + ", Output: " + {bit(7)} + ", Input: " + {bit(6)}'
        elif t == 'Status1':
            txt = f'"Status1: UBEA: " + {bit(0)} + ", RDM: " + {bit(1)} + ", BootRom: " + {bit(2)} + ", PortAddr: " + vAuthority(x) + ", Indicator: " + vIndicator(x)'
        else:
            txt = f'"TalkToMe: ReplyOnChange: " + {bit(1)} + ", Diagnostics: " + {bit(2)} + " (as unicast: " + {bit(3)} + "), VLC: " + {bit(4)}'
        c8 += f'func C08_{t}_text(s {t}) {{\n\tx := {t}(vSplit8(uint8(s)))\n\tvEnsure("text reports every flag", x.String() == {txt})\n}}\n\n'
    def table(name, t, m, shift, mask, vals, dflt):
        s = f'func {name}(x {t}) string {{\n\tswitch (x & {mask:#x}) >> {shift} {{\n'
        for i, v in enumerate(vals):
            s += f'\tcase {i}:\n\t\treturn "{v}"\n'
        return s + f'\t}}\n\treturn "{dflt}"\n}}\n\n'
    c8 += table('vPortProtocol', 'PortType', 0, 0, 0x1f, MULTI[2][5], 'unknown')
    c8 += table('vAuthority', 'Status1', 0, 4, 0x30, MULTI[0][5], 'error')
    c8 += table('vIndicator', 'Status1', 0, 6, 0xc0, MULTI[1][5], 'error')
    for n, v in OPS.items():
        c8 += f'func C08_OpCode_{n}() {{\n\tvEnsure("name", OpCode({v:#x}).String() == "{n}")\n\tvEnsure("valid", ValidOp(OpCode({v:#x})))\n}}\n\n'
    und = ' && '.join(f'o != {v:#x}' for v in OPS.values())
    c8 += f'''func C08_OpCode_undefined(o OpCode) {{
	vRequire({und})
	vEnsure("numeric rendering", o.String() == fmt.Sprintf("OpCode(%d)", uint16(o)))
	vEnsure("not valid", !ValidOp(o))
	vReach("end")
}}

'''
    consts = ' && '.join(f'{n} == {v:#x}' for n, v in OPS.items())
    c8 += f'func C08_OpCode_constants() {{\n\tvEnsure("opcode constants", {consts} && OpDMX == 0x5000)\n}}\n\n'
    c8 += 'func C08_StyleCode(s StyleCode) {\n\tx := StyleCode(vSplit8(uint8(s)))\n\twant := fmt.Sprintf("StyleCode(%d)", uint8(x))\n\tswitch x {\n'
    for i, v in enumerate(STYLE):
        c8 += f'\tcase {i}:\n\t\twant = "{v}"\n'
    c8 += '\t}\n\tvEnsure("name", x.String() == want)\n\tvEnsure("valid exactly when defined", ValidStyle(x) == (x <= 6))\n}\n\n'
    c8 += 'func C08_StyleCode_constants() {\n\tvEnsure("style constants", ' + ' && '.join(f'St{("Visual" if v=="Visual" else v)} == {i}' for i, v in enumerate(STYLE)) + ')\n}\n\n'
    c8 += 'func C08_NodeReportCode(s NodeReportCode) {\n\tx := NodeReportCode(vSplit8(uint8(s)))\n\twant := fmt.Sprintf("NodeReportCode(%d)", uint8(x))\n\tswitch x {\n'
    for i, v in enumerate(REPORT):
        c8 += f'\tcase {i}:\n\t\twant = "{v}"\n'
    c8 += '\t}\n\tvEnsure("name", x.String() == want)\n}\n\n'
    c8 += 'func C08_NodeReportCode_constants() {\n\tvEnsure("report constants", ' + ' && '.join(f'{v} == {i}' for i, v in enumerate(REPORT)) + ')\n}\n\n'
    c8 += 'func C08_PriorityCode(s PriorityCode) {\n\tx := PriorityCode(vSplit8(uint8(s)))\n\twant := fmt.Sprintf("PriorityCode(%d)", uint8(x))\n\tswitch x {\n'
    for v, i in PRIO.items():
        c8 += f'\tcase {i:#x}:\n\t\twant = "{v}"\n'
    c8 += '\t}\n\tvEnsure("name", x.String() == want)\n}\n\n'
    c8 += 'func C08_PriorityCode_constants() {\n\tvEnsure("priority constants", ' + ' && '.join(f'{v} == {i:#x}' for v, i in PRIO.items()) + ')\n}\n'
    os.makedirs(OUT, exist_ok=True)
    open(os.path.join(OUT, 'C07.go'), 'w').write(c7)
    open(os.path.join(OUT, 'C08.go'), 'w').write(c8)
main()
