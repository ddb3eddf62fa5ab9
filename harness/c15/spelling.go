package c15

import (
	"database/sql/driver"

	"gen/zs/en"
	"gen/zs/nm"

	"verif/sv"
)

// C15_Spelling: names keep the spelling of the schema.
func C15_Spelling() {
	names(nm.EValues(), nm.EStrings(), nm.EString, nm.E.String, []nm.E{0, 1, 2, 3, 4}, []string{"type", "func", "range", "nil", "true_"})
	names(nm.LowerEnumValues(), nm.LowerEnumStrings(), nm.LowerEnumString, nm.LowerEnum.String, []nm.LowerEnum{0, 1, 200}, []string{"a", "bC", "d_e"})
}

// column checks how an enum is stored in a database: as its name.
func column[T interface {
	num
	Value() (driver.Value, error)
	String() string
}, P interface {
	*T
	Scan(any) error
}](want []T, name []string) {
	k := sv.Choose("item", len(want))
	stored, err := want[k].Value()
	sv.Assert(err == nil, "stores")
	s, ok := stored.(string)
	sv.Assert(ok && s == name[k], "stored-name")
	old := T(sv.U64("old"))
	got := old
	switch sv.Choose("source", 4) {
	case 0:
		err = P(&got).Scan(name[k])
	case 1:
		err = P(&got).Scan([]byte(name[k]))
	case 2:
		err = P(&got).Scan(want[k])
	case 3:
		err = P(&got).Scan(stored)
	}
	sv.Assert(err == nil && got == want[k], "restored")
	got = old
	sv.Assert(P(&got).Scan(int64(sv.U64("number"))) != nil && got == old, "rejects-numbers")
	sv.Section("any-name")
	n := sv.Choose("name length", 3)
	b := sv.Bytes("name", n)
	got = old
	err = P(&got).Scan(b)
	if err != nil {
		sv.Assert(got == old, "kept")
	}
	declared := false
	for i, w := range name {
		if len(w) == n {
			is := sv.BytesEqual([]byte(w), b)
			sv.Assert(sv.Or(!is, got == want[i]), "value-of-name")
			declared = sv.Or(declared, is)
		}
	}
	sv.Assert((err == nil) == declared, "accepts-declared-names-only")
	sv.Reach("checked")
}

func C15_Column() { column[en.EU8]([]en.EU8{0, 1, 7, 8, 255}, []string{"A", "B", "C", "D", "E"}) }

func C15_ColumnSpelling() {
	column[nm.LowerEnum]([]nm.LowerEnum{0, 1, 200}, []string{"a", "bC", "d_e"})
}
