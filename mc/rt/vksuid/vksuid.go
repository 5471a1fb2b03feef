// Package vksuid stands in for ksuid: unique identifiers that do not depend on the schedule.
package vksuid

import (
	"github.com/DanLavine/willow/verifmc/vs"
	"github.com/segmentio/ksuid"
)

type KSUID = ksuid.KSUID

var Nil = ksuid.Nil
var Max = ksuid.Max

var (
	Parse       = ksuid.Parse
	FromBytes   = ksuid.FromBytes
	FromParts   = ksuid.FromParts
	Compare     = ksuid.Compare
)

var outside uint32

func New() KSUID {
	path, n := vs.NextID()
	var b [20]byte
	b[0], b[1], b[2], b[3] = 0x10, 0, 0, 1
	if path == nil && n == 0 {
		outside++
		b[4] = 0xff
		b[16], b[17], b[18], b[19] = byte(outside>>24), byte(outside>>16), byte(outside>>8), byte(outside)
	} else {
		i := 5
		for _, p := range path {
			if i+1 >= 18 {
				// deep spawn trees: fold
				b[16] ^= byte(p) * 31
				b[17] += byte(p)
				continue
			}
			b[i], b[i+1] = byte(p>>8), byte(p)+1
			i += 2
		}
		b[18], b[19] = byte(n>>8), byte(n)
	}
	k, _ := ksuid.FromBytes(b[:])
	return k
}

func NewRandom() (KSUID, error) { return New(), nil }
