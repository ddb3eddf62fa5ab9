package c13

import (
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
)

//sv:bound choices with cases that have no field, of one or several conditions and with or without a default, for each kind of selector; conditions written in other bases and as expressions (schemas/ec.zs)

func C13_EcSeveral()   { gt.RoundTrip(cs.EcSeveral()) }
func C13_EcFirst()     { gt.RoundTrip(cs.EcFirst()) }
func C13_EcSingle()    { gt.RoundTrip(cs.EcSingle()) }
func C13_EcByKind()    { gt.RoundTrip(cs.EcByKind()) }
func C13_EcByMask()    { gt.RoundTrip(cs.EcByMask()) }
func C13_EcByBool()    { gt.RoundTrip(cs.EcByBool()) }
func C13_EcNotBool()   { gt.RoundTrip(cs.EcNotBool()) }
func C13_EcNoDefault() { gt.RoundTrip(cs.EcNoDefault()) }
func C13_EcOnlyEmpty() { gt.RoundTrip(cs.EcOnlyEmpty()) }
func C13_EcForms()     { gt.RoundTrip(cs.EcForms()) }
func C13_EcAll()       { gt.RoundTrip(cs.EcAll()) }
func C13_EcPacks()     { gt.RoundTrip(cs.EcPacks()) }
