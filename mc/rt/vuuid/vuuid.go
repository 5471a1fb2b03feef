// Package vuuid stands in for google/uuid: deterministic unique identifiers.
package vuuid

import (
	"github.com/DanLavine/willow/verifmc/vksuid"
	"github.com/google/uuid"
)

type UUID = uuid.UUID

var Nil = uuid.Nil

var (
	Parse     = uuid.Parse
	MustParse = uuid.MustParse
	FromBytes = uuid.FromBytes
)

func New() UUID {
	k := vksuid.New()
	var u UUID
	copy(u[:], k[4:])
	return u
}

func NewString() string             { return New().String() }
func NewRandom() (UUID, error)      { return New(), nil }
func NewUUID() (UUID, error)        { return New(), nil }
func NewV7() (UUID, error)          { return New(), nil }
func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}
