package c14

import (
	"gen/zs/chu"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

var declared = []chu.UUnionChoiceType{chu.UChoiceA, chu.UChoiceB, chu.UChoiceC, chu.UChoiceD, chu.UChoiceE}

// C14_Tags: every tag selects its field or is an error.
func C14_Tags() {
	tag := sv.U64("tag")
	sv.Assume(tag < 1<<31)
	b := &hx.Bits{}
	b.PutVarUint(tag, 5)
	b.PutBytes(make([]byte, 4))
	var u chu.U
	sv.Section("decode")
	err := u.UnmarshalZserio(hx.NewReader(b.Bytes()))
	if tag >= uint64(len(declared)) {
		sv.Assert(err != nil, "rejects-undeclared-tag")
		sv.Reach("rejected")
		return
	}
	sv.Assert(err == nil, "accepts-declared-tag")
	sv.Assert(u.UnionChoice == declared[sv.Concrete(int(tag))], "selects-the-field")
	sv.Reach("accepted")
}

// C14_Selection: encoding and sizing a union succeed for declared selections only.
func C14_Selection() {
	u := chu.U{UnionChoice: chu.UUnionChoiceType(sv.U64("selection"))}
	ok := false
	for _, d := range declared {
		ok = sv.Or(ok, u.UnionChoice == d)
	}
	_, w := hx.NewWriter()
	sv.Section("encode")
	err := u.MarshalZserio(w)
	_, err2 := u.ZserioBitSize(0)
	sv.Assert((err == nil) == ok, "encodes-iff-declared")
	sv.Assert((err2 == nil) == ok, "sizes-iff-declared")
	sv.Reach("encoded")
}

// C14_Zero: the selection of a fresh union is no field.
func C14_Zero() {
	var u chu.U
	sv.Assert(u.UnionChoice == chu.UChoiceUndefined, "undefined")
	for i, a := range declared {
		sv.Assert(a != chu.UChoiceUndefined, "not-undefined")
		for _, b := range declared[:i] {
			sv.Assert(a != b, "distinct")
		}
	}
	sv.Reach("checked")
}
