// Package rand stands in for crypto/rand in instrumented code: bytes come from the simulator.
package rand

import (
	"errors"
	"io"
	"math/big"

	"vsim/hook"
)

type device struct{}

func (device) Read(b []byte) (int, error) {
	if hook.Entropy == nil {
		return 0, errors.New("simulated entropy device not connected")
	}
	return hook.Entropy(b)
}

// Reader is the simulated entropy device. A read may be short.
var Reader io.Reader = device{}

// Read fills b or returns an error, as crypto/rand.Read does.
func Read(b []byte) (n int, err error) { return io.ReadFull(Reader, b) }

// Text is unused by the library today.
func Text() string {
	b := make([]byte, 26)
	if _, err := Read(b); err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b)
}

// Int returns a uniform value in [0, max), drawing as crypto/rand.Int does.
func Int(r io.Reader, max *big.Int) (n *big.Int, err error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n = new(big.Int)
	n.Sub(max, n.SetUint64(1))
	bitLen := n.BitLen()
	if bitLen == 0 {
		return
	}
	k := (bitLen + 7) / 8
	b := uint(bitLen % 8)
	if b == 0 {
		b = 8
	}
	bytes := make([]byte, k)
	for {
		if _, err = io.ReadFull(r, bytes); err != nil {
			return nil, err
		}
		bytes[0] &= uint8(int(1<<b) - 1)
		n.SetBytes(bytes)
		if n.Cmp(max) < 0 {
			return
		}
	}
}

// Prime returns a prime of the given size.
func Prime(r io.Reader, bits int) (*big.Int, error) {
	bytes := make([]byte, (bits+7)/8)
	for {
		if _, err := io.ReadFull(r, bytes); err != nil {
			return nil, err
		}
		p := new(big.Int).SetBytes(bytes)
		p.Rsh(p, uint(len(bytes)*8-bits))
		p.SetBit(p, bits-1, 1)
		p.SetBit(p, 0, 1)
		if p.ProbablyPrime(20) {
			return p, nil
		}
	}
}
