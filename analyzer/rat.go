package main

import (
	"go/constant"
	"math/big"
)

type rat = big.Rat

func newRat(n int64) *rat { return big.NewRat(n, 1) }

func ratOf(v constant.Value) (*rat, bool) {
	switch v.Kind() {
	case constant.Int, constant.Float:
		return newRat(0).SetString(v.ExactString())
	}
	return nil, false
}
