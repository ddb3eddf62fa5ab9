"""Writes harness/c15/types.go from schemas/en.zs (python3 tools/genc15.py; gofmt -w harness/c15)."""
import re
src=open('/verif/schemas/en.zs').read()
kind={'bit:5':'hx.UBits[uint8](5, sv.U8)'}
for n in (8,16,32,64):
    kind['uint%d'%n]='hx.UBits[uint%d](%d, sv.U%d)'%(n,n,n); kind['int%d'%n]='hx.SBits[int%d](%d, sv.I%d)'%(n,n,n)
for n,g in ((3,8),(13,16),(33,64)): kind['bit:%d'%n]='hx.UBits[uint%d](%d, sv.U%d)'%(g,n,g)
for n,g in ((5,8),(33,64)): kind['int:%d'%n]='hx.SBits[int%d](%d, sv.I%d)'%(g,n,g)
for t,f in (('varuint','VarUint'),('varint','VarInt')):
    for n in ('','16','32','64'): kind[t+n]='hx.%s%s()'%(f,n)
kind['varsize']='hx.VarSize()'
sub={'Five':'bit:5','FiveAgain':'bit:5','Short':'int16','VU':'varuint','VI16':'varint16'}
out=['package c15\n','import (\n\t"gen/zs/en"\n\n\t"github.com/woven-planet/go-zserio/zzverif/hx"\n\t"verif/sv"\n)\n','// Written by tools/genc15.py from schemas/en.zs, with the values zserio assigns.\n']
for kw,ty,name,body in re.findall(r'^(enum|bitmask)\s+(\S+)\s+(\w+)\s*\{(.*?)\};',src,re.M|re.S):
    k=kind[sub.get(ty,ty)]
    out.append(f'func C15_{name}() {{ value[en.{name}]({k}) }}\n')
    out.append(f'func C15_{name}_Packed() {{ packed[en.{name}]({k}) }}\n')
    vals=[];names=[];env={};top=0
    for item in body.split(','):
        n,_,e=[x.strip() for x in item.partition('=')]
        if e:
            e=re.sub(r'valueof\(\w+\.(\w+)\)',lambda m:str(env[m.group(1)]),e)
            v=eval(e,{},{'BASE':20})
        elif kw=='enum': v=vals[-1]+1 if vals else 0
        else:
            v=1
            while v<=top: v*=2
        env[n]=v; vals.append(v); names.append(n); top=max([top,v])
    if kw=='enum':
        w=', '.join(map(str,vals)); nn=', '.join('"%s"'%n for n in names)
        out.append(f'func C15_{name}_Names() {{\n\tnames(en.{name}Values(), en.{name}Strings(), en.{name}String, en.{name}.String, []en.{name}{{{w}}}, []string{{{nn}}})')
    else: out.append(f'func C15_{name}_Values() {{')
    for n,v in zip(names,vals): out.append(f'\tsv.Assert(en.{name}{n} == {v}, "constant-{n}")')
    if kw!='enum': out.append('\tsv.Reach("checked")')
    out.append('}\n')
open('/verif/harness/c15/types.go','w').write('\n'.join(out))
