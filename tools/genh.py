import os,re,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st=re.findall(r'^func ([A-Z]\w*)\(\) Case',open(V+'/harness/cs/st.go').read(),re.M)
ch=re.findall(r'^func ([A-Z]\w*)\(\) Case',open(V+'/harness/cs/chu.go').read(),re.M)
HEAD='''import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)
'''
kinds=[('UInt8','hx.UBits[uint8](8, sv.U8)'),('UInt16','hx.UBits[uint16](16, sv.U16)'),('UInt32','hx.UBits[uint32](32, sv.U32)'),('UInt64','hx.UBits[uint64](64, sv.U64)'),
('Bit1','hx.UBits[uint8](1, sv.U8)'),('Bit13','hx.UBits[uint16](13, sv.U16)'),('Bit33','hx.UBits[uint64](33, sv.U64)'),
('Int8','hx.SBits[int8](8, sv.I8)'),('Int16','hx.SBits[int16](16, sv.I16)'),('Int32','hx.SBits[int32](32, sv.I32)'),('Int64','hx.SBits[int64](64, sv.I64)'),
('Int3','hx.SBits[int8](3, sv.I8)'),('Int13','hx.SBits[int16](13, sv.I16)'),('Int33','hx.SBits[int64](33, sv.I64)'),
]+[(k,f'hx.{k}()') for k in 'VarUint16 VarUint32 VarUint64 VarUint VarSize VarInt16 VarInt32 VarInt64 VarInt Bool Float16 Float32 Float64 String Bytes Extern'.split()]
LARGE={'c08': 'arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed; start offset 3', 'c09': 'arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed; the sink fails at the first two, the last two and the middle byte and around every 4096th; likewise strings, bytes and extern of 4097 and 12289 bytes', 'c10': 'arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed; cut at the first two, the last two and the middle byte and around every 4096th; likewise strings, bytes and extern of 4097 and 12289 bytes', 'c20': 'arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed', 'c21': 'receivers that held 0, 3, 4096 or 4097 elements and get 0, 3, 4096 or 4097 (uint16, varuint16, int:5, string; last element arbitrary when unpacked, the others fixed)'}
DOC={}
def w(prop,doc,bounds,fn,args=None,akinds=None,aargs=lambda k:''):
    s=f'// Package {prop}: {doc}\n//\n'+''.join(f'//sv:bound {b}\n' for b in bounds+[x for x in [LARGE.get(prop)] if x])+f'package {prop}\n\n'+HEAD+'\n// generated types\n\n'
    for c in st+ch:
        a='' if not args else args(c)
        if a is None: continue
        f2='Prefix' if fn=='Arbitrary' and c in ('PackedArrays','PackedMore') else fn
        s+=f'func {prop.upper()}_{c}() {{ gt.{f2}(cs.{c}(){a}) }}\n'
    s+='\n// arrays of the library\n\n'
    for k,e in kinds:
        a=aargs(k)
        if a is None: continue
        s+=f'func {prop.upper()}_Array{k}() {{ at.{fn}({e}{a}) }}\n'
    open(V+f'/harness/{prop}/{prop}.go','w').write(s)
CORP='generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)'
ARR='library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length'
w('c08','the predicted bit size is the number of bits written.',[CORP,ARR,'start offsets: 0..7 for generated types, 0, 3 and 7 (thorough: 0..7) for library arrays'],'Size')
w('c09','a failing sink is reported.',[CORP,ARR,'the sink starts to fail at each byte of the encoding'],'FailSink')
w('c10','truncated input is an error.',[CORP,ARR,'the encoding is cut at each byte'],'Truncated')
L=dict(Fixed=67,AutoArrays=5,AutoBlobs=4,AutoMore=6,Blobs=4,Deep=9,PackedMore=3,PackedPlain=4,DynBits=17,Names=8,Cond=5,Aligned=14,FixedArrays=20,VarA=6,VarB=9,VarC=10,VarD=10,VarE=10,VarF=10,VarG=7,HoldsUnion=4,Multi=7)
w('c11','decoding arbitrary bytes.',[CORP,ARR,'input: every byte string of 0..3 bytes, for types of fixed size up to their size and one byte','a length of a string, bytes or extern value read from the input is 0..8 or at least 4096 (the largest the code reserves before it reads the content), lengths in between are left out','the allocation limit is 1 MiB for a generated type and 128 KiB for a library array plus 64 bytes for each input byte'],'Arbitrary',lambda c: None if c=='HoldsEmpty' else f', {L.get(c,3)}',None,lambda k: ', 2' if k in ('Bit1','Bool') else ', 3')
HOLD={'Holder','Multi'}
w('c20','encoding is pure and deterministic.',[CORP,ARR,'every store, map update and append of the encoder, the size prediction and the decoder is checked against the memory of the value, of the input and of all package-level variables, and each of these operations runs twice'],'Pure',lambda c: ', false' if c in HOLD else ', true')
w('c21','the decoded value depends only on the bytes.',[CORP,ARR,'the receiver holds arbitrary content: scalars of any value, nil or allocated pointers, slices and strings of 0..1 elements'],'Reuse')
