// Package c14: generated unions.
//
//sv:bound the unions of schemas/chu.zs: scalar, compound, string, array, enum and bitmask fields, nested unions, unions in structs and arrays
//sv:bound a union of 130 fields, so tags of one and two bytes (schemas/big.zs)
//sv:bound all selections and field values, all 31 bit tags; start offsets 0 and 3 (thorough: 0..7)
package c14

import (
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
)

func C14_Union()      { gt.RoundTrip(cs.Union()) }
func C14_UNums()      { gt.RoundTrip(cs.UNums()) }
func C14_HoldsUnion() { gt.RoundTrip(cs.HoldsUnion()) }
