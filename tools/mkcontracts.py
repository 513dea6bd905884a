#!/usr/bin/env python3
"""Writes the per-packet-type contract files of C01..C06 from the wire layouts of the Art-Net 4
specification (the table below is written from the protocol document and the field documentation,
not from the encoder)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'contracts', 'packet')

# (field, kind, n): u8, be16, le16, arr (n bytes), fill (n zero bytes)
HDR = [('ID', 'id', 8), ('OpCode', 'op', 2), ('Version', 'ver', 2)]
TYPES = {
 'ArtPoll': (0x2000, 14, [('TalkToMe', 'u8'), ('Priority', 'u8')]),
 'ArtPollReply': (0x2100, 239, [
    ('IPAddress', 'arr', 4), ('Port', 'le16'), ('VersionInfo', 'be16'), ('NetSwitch', 'u8'), ('SubSwitch', 'u8'),
    ('Oem', 'be16'), ('UBEAVersion', 'u8'), ('Status1', 'u8'), ('ESTAmanufacturer', 'arr', 2), ('ShortName', 'arr', 18),
    ('LongName', 'arr', 64), ('NodeReport', 'arr', 64), ('NumPorts', 'be16'), ('PortTypes', 'arr', 4), ('GoodInput', 'arr', 4),
    ('GoodOutput', 'arr', 4), ('SwIn', 'arr', 4), ('SwOut', 'arr', 4), ('SwVideo', 'u8'), ('SwMacro', 'u8'), ('SwRemote', 'u8'),
    (None, 'fill', 3), ('Style', 'u8'), ('Macaddress', 'arr', 6), ('BindIP', 'arr', 4), ('BindIndex', 'u8'), ('Status2', 'u8'),
    (None, 'fill', 26)]),
 'ArtDiagData': (0x2300, 530, [(None, 'fill', 1), ('Priority', 'u8'), (None, 'fill', 2), ('Length', 'be16'), ('Data', 'arr', 512)]),
 'ArtCommand': (0x2400, 528, [('ESTAmanufacturer', 'esta', 2), ('Length', 'be16'), ('Data', 'arr', 512)]),
 'ArtDMX': (0x5000, 530, [('Sequence', 'u8'), ('Physical', 'u8'), ('SubUni', 'u8'), ('Net', 'u8'), ('Length', 'len512'), ('Data', 'arr', 512)]),
 'ArtNzs': (0x5100, 530, [('Sequence', 'u8'), ('StartCode', 'u8'), ('SubUni', 'u8'), ('Net', 'u8'), ('Length', 'be16'), ('Data', 'arr', 512)]),
 'ArtSync': (0x5200, 14, [(None, 'fill', 2)]),
 'ArtAddress': (0x6000, 107, [('NetSwitch', 'u8'), ('BindIndex', 'u8'), ('ShortName', 'arr', 18), ('LongName', 'arr', 64), ('SwIn', 'arr', 4),
    ('SwOut', 'arr', 4), ('SubSwitch', 'u8'), ('SwVideo', 'u8'), ('Command', 'u8')]),
 'ArtTimeCode': (0x9700, 19, [(None, 'fill', 2), ('Frames', 'u8'), ('Seconds', 'u8'), ('Minutes', 'u8'), ('Hours', 'u8'), ('Type', 'u8')]),
 'ArtTrigger': (0x9900, 530, [(None, 'fill', 2), ('Oem', 'be16'), ('Key', 'u8'), ('SubKey', 'u8'), ('Data', 'arr', 512)]),
 'ArtIPProg': (0xf800, 34, [(None, 'fill', 2), ('Command', 'u8'), (None, 'fill', 1), ('ProgIP', 'arr', 4), ('ProgSubNet', 'arr', 4), ('ProgPort', 'arr', 2), (None, 'fill', 8)]),
 'ArtIPProgReply': (0xf900, 34, [(None, 'fill', 4), ('ProgIP', 'arr', 4), ('ProgSubNet', 'arr', 4), ('ProgPort', 'arr', 2), ('Status', 'u8'), (None, 'fill', 7)]),
}

def size(k, n):
    return {'u8': 1, 'be16': 2, 'le16': 2, 'len512': 2}.get(k, n)

def layout(t):
    op, total, fs = TYPES[t]
    off = 10 if t == 'ArtPollReply' else 12
    out = []
    for f in fs:
        name, kind = f[0], f[1]
        n = f[2] if len(f) > 2 else 0
        out.append((name, kind, n, off))
        off += size(kind, n)
    assert off == total, (t, off, total)
    return op, total, out

def arr_eq(pfx, name, n, off, b):
    return f'vForall(0, {n}, func(i int) bool {{ return {b}[{off}+i] == byte({pfx}.{name}[i]) }})'

def enc_cond(t, name, kind, n, off, p='p', b='b'):
    if kind == 'u8':
        return f'{b}[{off}] == byte({p}.{name})'
    if kind == 'be16':
        return f'{b}[{off}] == byte({p}.{name}>>8) && {b}[{off+1}] == byte({p}.{name})'
    if kind == 'le16':
        return f'{b}[{off}] == byte({p}.{name}) && {b}[{off+1}] == byte({p}.{name}>>8)'
    if kind == 'len512':
        return f'{b}[{off}] == 2 && {b}[{off+1}] == 0'
    if kind == 'esta':
        return f'{b}[{off}] == 0xff && {b}[{off+1}] == 0xff'
    if kind == 'arr':
        return arr_eq(p, name, n, off, b)
    if kind == 'fill':
        return f'vForall({off}, {off+n}, func(i int) bool {{ return {b}[i] == 0 }})'

def hdr(t, b='b'):
    op = TYPES[t][0]
    v = '' if t == 'ArtPollReply' else f' && {b}[10] == 0 && {b}[11] == 14'
    return f'vID({b}) && {b}[8] == {op & 0xff:#04x} && {b}[9] == {op >> 8:#04x}{v}'

def field_eq(a, b, name, kind, n):
    if kind in ('u8', 'be16', 'le16', 'len512', 'esta'):
        return f'{a}.{name} == {b}.{name}'
    return f'vForall(0, {n}, func(i int) bool {{ return {a}.{name}[i] == {b}.{name}[i] }})'

def opfield(t, p):
    return f'{p}.OpCode'

HEAD = '''// Code generated by tools/mkcontracts.py from the Art-Net wire layouts. DO NOT EDIT.

package packet

'''

def write(name, body):
    with open(os.path.join(OUT, name), 'w') as f:
        f.write(HEAD + body)

def main():
    os.makedirs(OUT, exist_ok=True)
    # shared vocabulary
    write('v_wire.go', '''// vID: the datagram starts with "Art-Net" and a NUL.
func vID(b []byte) bool {
	return b[0] == 'A' && b[1] == 'r' && b[2] == 't' && b[3] == '-' && b[4] == 'N' && b[5] == 'e' && b[6] == 't' && b[7] == 0
}

// vOp is the opcode a datagram carries, low byte first.
func vOp(b []byte) uint16 { return uint16(b[8]) | uint16(b[9])<<8 }

func vSnapBytes(b []byte) []byte { return append([]byte(nil), b...) }
''')
    c01 = c02 = c03 = c04 = c05 = c06 = ''
    for t in TYPES:
        op, total, fs = layout(t)
        T = t + 'Packet'
        # C01 -------------------------------------------------------------
        c01 += f'// {t}: {total} bytes, opcode {op:#06x}.\nfunc C01_{t}(p {T}) {{\n\tq := p\n\tb, err := q.MarshalBinary()\n'
        c01 += f'\tvEnsure("encoding succeeds", err == nil)\n\tvEnsure("fixed size {total}", len(b) == {total})\n\tvRequire(len(b) == {total})\n'
        c01 += f'\tvEnsure("identifier, opcode, version", {hdr(t)})\n'
        for i, (name, kind, n, off) in enumerate(fs):
            c01 += f'\tvEnsure("{name or "filler"} at {off}", {enc_cond(t, name, kind, n, off)})\n'
        c01 += '\tvReach("end")\n}\n\n'
        c01 += f'func C01_{t}_constructor() {{\n\tb, err := New{T}().MarshalBinary()\n\tvEnsure("encoding succeeds", err == nil)\n\tvEnsure("size", len(b) == {total})\n\tvRequire(len(b) == {total})\n\tvEnsure("own opcode", {hdr(t)})\n\tvReach("end")\n}}\n\n'
        # C02 -------------------------------------------------------------
        c02 += f'func C02_{t}(p {T}) {{\n'
        if t == 'ArtPollReply':
            c02 += '\tvRequire(p.Port == 6454 && p.Style <= 6)\n'
        if any(f[0] == 'Length' and f[1] == 'be16' for f in fs):
            c02 += '\tvRequire(p.Length <= 512)\n'
        c02 += f'\tq := p\n\tb, err := q.MarshalBinary()\n\tvEnsure("encodes", err == nil)\n\tr, err := Unmarshal(b)\n\tvEnsure("decodes", err == nil)\n\tvRequire(err == nil)\n'
        c02 += f'\td, ok := r.(*{T})\n\tvEnsure("same type", ok && d != nil)\n\tvRequire(ok && d != nil)\n'
        c02 += f'\tvEnsure("opcode", d.OpCode == {op:#06x} && d.GetOpCode() == {op:#06x})\n'
        if t != 'ArtPollReply':
            c02 += '\tvEnsure("version", d.Version[0] == 0 && d.Version[1] == 14)\n'
        for (name, kind, n, off) in fs:
            if kind == 'fill':
                continue
            if kind == 'len512':
                cond = 'd.Length == 512'
            elif kind == 'esta':
                cond = 'd.ESTAmanufacturer[0] == 0xff && d.ESTAmanufacturer[1] == 0xff'
            else:
                cond = field_eq('d', 'p', name, kind, n)
            c02 += f'\tvEnsure("{name} comes back", {cond})\n'
        c02 += '\tvReach("end")\n}\n\n'
        # C03 -------------------------------------------------------------
        c03 += f'func C03_{t}(p {T}, other {T}) {{\n\tq, o := p, other\n\tb, err := q.MarshalBinary()\n\tvRequire(err == nil)\n\tb1 := vSnapBytes(b)\n'
        c03 += f'\tvEnsure("still reports its opcode", q.GetOpCode() == {op:#06x} && q.OpCode == {op:#06x})\n'
        for (name, kind, n, off) in fs:
            if kind in ('fill', 'len512', 'esta'):
                continue
            c03 += f'\tvEnsure("{name} unchanged", {field_eq("q", "p", name, kind, n)})\n'
        c03 += f'\tvEnsure("other packets unchanged by encoding", true)\n' if False else ''
        c03 += '\to.MarshalBinary()\n\tb2, err := q.MarshalBinary()\n\tvEnsure("encodes again", err == nil)\n\tvEnsure("same bytes again", vSeq(b1, b2))\n\tvEnsure("first encoding untouched by later ones", vSeq(b1, b))\n'
        c03 += f'\tvEnsure("still reports its opcode again", q.GetOpCode() == {op:#06x})\n'
        if t == 'ArtPollReply':
            c03 += '\tvEnsure("port unchanged again", q.Port == p.Port)\n'
        c03 += '\tvReach("end")\n}\n\n'
        # C04 -------------------------------------------------------------
        c04 += f'func C04_{t}(q {T}, b []byte) {{\n\told := vSnapBytes(b)\n\tq.UnmarshalBinary(b)\n\tvEnsure("returns without touching the datagram", vSeq(old, b))\n\tvReach("end")\n}}\n\n'
        # C05 -------------------------------------------------------------
        cond = accept(t)
        c05 += f'func vAccepts{t}(b []byte) bool {{\n{cond}}}\n\n'
        c05 += f'func C05_{t}(q {T}, b []byte) {{\n\twant := vAccepts{t}(b)\n\terr := q.UnmarshalBinary(b)\n\tvEnsure("accepts only well-formed packets of its kind", err != nil || want)\n\tvEnsure("accepts every well-formed packet of its kind", err == nil || !want)\n'
        c05 += '\tif err == nil {\n\t\tvReach("accepted")\n\t} else {\n\t\tvReach("rejected")\n\t}\n}\n\n'
        # C06 -------------------------------------------------------------
        c06 += f'func C06_{t}(q {T}, b []byte) {{\n\tif q.UnmarshalBinary(b) != nil {{\n\t\treturn\n\t}}\n\tvReach("accepted")\n'
        c06 += f'\tvEnsure("ID", vForall(0, 8, func(i int) bool {{ return q.ID[i] == b[i] }}))\n\tvEnsure("OpCode", uint16(q.OpCode) == vOp(b) && q.GetOpCode() == q.OpCode)\n'
        if t != 'ArtPollReply':
            c06 += '\tvEnsure("Version", q.Version[0] == b[10] && q.Version[1] == b[11])\n'
        for (name, kind, n, off) in fs:
            if kind == 'fill':
                continue
            if t == 'ArtDMX' and name == 'Data':
                c06 += '\tl := int(q.Length)\n\tvEnsure("Data within the declared length", vForall(0, 512, func(i int) bool { return i >= l || q.Data[i] == b[18+i] }))\n'
                c06 += '\tvEnsure("Data beyond the declared length is zero", vForall(0, 512, func(i int) bool { return i < l || q.Data[i] == 0 }))\n'
            elif kind == 'le16':
                c06 += f'\tvEnsure("Port normalised", q.Port == 6454)\n'
            elif kind in ('len512',):
                c06 += f'\tvEnsure("{name}", {enc_cond(t, name, "be16", n, off, "q")})\n'
            elif kind == 'esta':
                c06 += f'\tvEnsure("{name}", {enc_cond(t, name, "arr", n, off, "q")})\n'
            else:
                c06 += f'\tvEnsure("{name}", {enc_cond(t, name, kind, n, off, "q")})\n'
        c06 += '}\n\n'
    # general decoder
    g4 = '''func C04_Unmarshal(b []byte) {
	old := vSnapBytes(b)
	p, err := Unmarshal(b)
	vEnsure("returns without touching the datagram", vSeq(old, b))
	vEnsure("accepted datagram gives a packet", err != nil || p != nil)
	vReach("end")
}

'''
    g5 = '''func C05_Unmarshal(b []byte) {
	p, err := Unmarshal(b)
	ok := false
'''
    for t in TYPES:
        op = TYPES[t][0]
        g5 += f'\tis{t} := vAccepts{t}(b)\n\tok = ok || is{t}\n'
    g5 += '\tvEnsure("rejects whatever no implemented type accepts", err != nil || ok)\n\tvEnsure("accepts what the type of its opcode accepts", err == nil || !ok)\n'
    g5 += '\tif err != nil {\n\t\treturn\n\t}\n\tvReach("accepted")\n'
    for t in TYPES:
        g5 += f'\t_, t{t} := p.(*{t}Packet)\n\tvEnsure("type {t} exactly for its opcode", t{t} == is{t})\n'
    g5 += '}\n\n'
    g6 = 'func C06_Unmarshal(b []byte, '
    g6 = ''
    for t in TYPES:
        op, total, fs = layout(t)
        # the general decoder returns exactly what the decoder of the type gives
        g6 += f'func C06_Unmarshal_{t}(b []byte) {{\n\tvRequire(len(b) >= 12 && vOp(b) == {op:#06x})\n\tp, err := Unmarshal(b)\n\tif err != nil {{\n\t\treturn\n\t}}\n\td, ok := p.(*{t}Packet)\n\tvEnsure("type", ok)\n\tvRequire(ok)\n\tvReach("accepted")\n'
        g6 += f'\tvar q {t}Packet\n\tvEnsure("same verdict as the type\'s own decoder", q.UnmarshalBinary(b) == nil)\n'
        g6 += '\tvEnsure("OpCode", d.OpCode == q.OpCode)\n'
        for (name, kind, n, off) in fs:
            if kind == 'fill':
                continue
            g6 += f'\tvEnsure("{name}", {field_eq("d", "q", name, kind if kind in ("u8","be16","le16","len512") else "arr", n)})\n'
        g6 += '}\n\n'
    write('C01.go', c01)
    write('C02.go', c02)
    write('C03.go', c03)
    write('C04.go', g4 + c04)
    write('C05.go', g5 + c05)
    write('C06.go', c06 + g6)

def accept(t):
    op, total, fs = TYPES[t]
    offs = {f[0]: f[3] for f in layout(t)[2] if f[0]}
    s = ''
    if t == 'ArtDMX':
        s += '\tif len(b) < 18 {\n\t\treturn false\n\t}\n'
        s += '\tl := int(b[16])<<8 | int(b[17])\n'
        c = ['vID(b)', f'vOp(b) == {op:#06x}', 'b[11] >= 14', 'l >= 2', 'l <= 512', 'l&1 == 0', 'len(b) >= 18+l']
    else:
        s += f'\tif len(b) < {total} {{\n\t\treturn false\n\t}}\n'
        c = ['vID(b)', f'vOp(b) == {op:#06x}']
        if t == 'ArtPollReply':
            o = offs['Port']
            c += [f'(b[{o}] == 0x36 && b[{o+1}] == 0x19 || b[{o}] == 0x19 && b[{o+1}] == 0x36)', f'b[{offs["Style"]}] <= 6']
        else:
            c += ['b[11] >= 14']
        if t == 'ArtCommand':
            c += [f'b[{offs["ESTAmanufacturer"]}] == 0xff && b[{offs["ESTAmanufacturer"]+1}] == 0xff']
        if 'Length' in offs:
            o = offs['Length']
            c += [f'int(b[{o}])<<8|int(b[{o+1}]) <= 512']
    s += '\treturn ' + ' &&\n\t\t'.join(c) + '\n'
    return s

main()
