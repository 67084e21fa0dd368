package main

import (
	"math/big"
	"strconv"
	"strings"
)

// refNumber reads a valid JSON number exactly: digits D and scale E with
// value = sign * D * 10^E, D without leading or trailing zeros ("" for zero).
func refNumber(s string) (neg bool, digits string, scale *big.Int) {
	if strings.HasPrefix(s, "-") {
		neg = true
		s = s[1:]
	}
	scale = new(big.Int)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		scale.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		scale.Sub(scale, big.NewInt(int64(len(s)-i-1)))
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	t := strings.TrimRight(s, "0")
	scale.Add(scale, big.NewInt(int64(len(s)-len(t))))
	return neg, t, scale
}

// refInteger gives the exact integer a valid JSON number denotes, if it is
// one and has at most 25 digits.
func refInteger(s string) (*big.Int, bool) {
	neg, d, e := refNumber(s)
	if d == "" {
		return new(big.Int), true
	}
	if e.Sign() < 0 || !e.IsInt64() || e.Int64() > 25 {
		return nil, false
	}
	x, ok := new(big.Int).SetString(d+strings.Repeat("0", int(e.Int64())), 10)
	if !ok || len(d) > 60 {
		return nil, false
	}
	if neg {
		x.Neg(x)
	}
	return x, true
}

func refInt64(s string) (int64, bool) {
	x, ok := refInteger(s)
	if !ok || !x.IsInt64() {
		return 0, false
	}
	return x.Int64(), true
}

func refUint64(s string) (uint64, bool) {
	x, ok := refInteger(s)
	if !ok || !x.IsUint64() {
		return 0, false
	}
	return x.Uint64(), true
}

// refFloat is the correctly rounded value; inf reports overflow.
func refFloat(s string) (f float64, inf bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err != nil
}
