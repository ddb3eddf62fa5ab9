// Package c13: generated choices.
//
//sv:bound the choices of schemas/chu.zs: integer (signed, unsigned), boolean, enum, bitmask, member and expression selectors; several conditions, constants, empty cases, default with and without a field
//sv:bound a choice of 60 cases of three conditions each (schemas/big.zs)
//sv:bound all selector and field values; start offsets 0 and 3 (thorough: 0..7)
package c13

import (
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
)

func C13_ByInt()    { gt.RoundTrip(cs.ByInt()) }
func C13_BySigned() { gt.RoundTrip(cs.BySigned()) }
func C13_ByBool()   { gt.RoundTrip(cs.ByBool()) }
func C13_ByEnum()   { gt.RoundTrip(cs.ByEnum()) }
func C13_ByMask()   { gt.RoundTrip(cs.ByMask()) }
func C13_ByMember() { gt.RoundTrip(cs.ByMember()) }
func C13_ByExpr()   { gt.RoundTrip(cs.ByExpr()) }
func C13_Holder()   { gt.RoundTrip(cs.Holder()) }
func C13_Multi()    { gt.RoundTrip(cs.Multi()) }
func C13_Bare()     { gt.RoundTrip(cs.Bare()) }
