package main

// Minimal DER encoder. Independent of the code under test (and of encoding/asn1's struct rules).

import (
	"crypto/sha256"
	"encoding/hex"
	"math/big"
)

func derLen(n int) []byte {
	if n < 0x80 {
		return []byte{byte(n)}
	}
	var b []byte
	for v := n; v > 0; v >>= 8 {
		b = append([]byte{byte(v)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func der(tag byte, parts ...[]byte) []byte {
	var body []byte
	for _, p := range parts {
		body = append(body, p...)
	}
	out := append([]byte{tag}, derLen(len(body))...)
	return append(out, body...)
}

func derSeq(parts ...[]byte) []byte { return der(0x30, parts...) }
func derSet(parts ...[]byte) []byte { return der(0x31, parts...) }
func derOctet(b []byte) []byte      { return der(0x04, b) }
func derNull() []byte               { return []byte{5, 0} }
func derBits(b []byte) []byte       { return der(0x03, []byte{0}, b) }
func derBool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}

func derInt(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{2, 1, 0}
	}
	if v.Sign() < 0 { // two's complement
		n := uint(v.BitLen()/8 + 1)
		b := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 8*n), v).Bytes()
		return der(0x02, b)
	}
	b := v.Bytes()
	if b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return der(0x02, b)
}

func derInt64(v int64) []byte { return derInt(big.NewInt(v)) }

func derOID(arcs ...int) []byte {
	b := []byte{byte(arcs[0]*40 + arcs[1])}
	for _, a := range arcs[2:] {
		var t []byte
		t = append(t, byte(a&0x7f))
		for a >>= 7; a > 0; a >>= 7 {
			t = append([]byte{byte(a&0x7f) | 0x80}, t...)
		}
		b = append(b, t...)
	}
	return der(0x06, b)
}

func derPrintable(s string) []byte { return der(0x13, []byte(s)) }
func derUTF8(s string) []byte      { return der(0x0c, []byte(s)) }
func derUTC(s string) []byte       { return der(0x17, []byte(s)) }

func hashHex(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:8])
}
