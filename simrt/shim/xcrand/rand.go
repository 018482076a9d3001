// Package rand is crypto/rand driven by the run.
package rand

import (
	"io"
	"math/big"

	"verif/simrt"
)

type rdr struct{}

func (rdr) Read(b []byte) (int, error) { simrt.Rand(b); return len(b), nil }

// Reader is rand.Reader.
var Reader io.Reader = rdr{}

// Read is rand.Read.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int is rand.Int.
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

// Text is rand.Text.
func Text() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = abc[b[i]%32]
	}
	return string(b)
}
