package main

import (
	"math/big"
	"strconv"
)

func newBig(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad int " + s)
	}
	return b
}

func newBigInt(i int) string { return strconv.Itoa(i) }
