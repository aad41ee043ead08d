// Package paillier is an offline stand-in for tss-lib's Paillier cryptosystem: same API and same
// mathematics (g = N+1), but plain random primes instead of safe ones.
package paillier

import (
	"crypto/rand"
	"encoding/json"
	"errors"
	"math/big"
	"os"
	"sync"
	"time"
)

type (
	// PublicKey is the modulus.
	PublicKey struct{ N *big.Int }
	// PrivateKey extends PublicKey by lcm(p-1,q-1) and (p-1)(q-1).
	PrivateKey struct {
		PublicKey
		LambdaN, PhiN *big.Int
	}
)

// Errors with the meaning they have in tss-lib.
var (
	ErrMessageTooLong   = errors.New("the message is too large or < 0")
	ErrMessageMalFormed = errors.New("the message is mal-formed")

	zero = big.NewInt(0)
	one  = big.NewInt(1)
)

var planned struct {
	sync.Mutex
	used int
}

// next is the next key of the file VERIF_KEYS, if there is one
func next() *PrivateKey {
	path := os.Getenv("VERIF_KEYS")
	if path == "" {
		return nil
	}
	planned.Lock()
	defer planned.Unlock()
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var keys [][3]string
	if err := json.Unmarshal(b, &keys); err != nil {
		panic(err)
	}
	if planned.used >= len(keys) {
		return nil
	}
	var x [3]*big.Int
	for i, h := range keys[planned.used] {
		x[i], _ = new(big.Int).SetString(h, 16)
	}
	planned.used++
	return &PrivateKey{PublicKey{x[0]}, x[1], x[2]}
}

// GenerateKeyPair generates a key pair with a modulus of the given length, or takes a planned one. With VERIF_KEYLOG
// set it writes the key to that file.
func GenerateKeyPair(modulusBitLen int, d time.Duration, o ...int) (*PrivateKey, *PublicKey, error) {
	sk := next()
	if sk == nil {
		var err error
		if sk, _, err = generate(modulusBitLen); err != nil {
			return nil, nil, err
		}
	}
	if path := os.Getenv("VERIF_KEYLOG"); path != "" {
		planned.Lock()
		defer planned.Unlock()
		f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
		if err != nil {
			return nil, nil, err
		}
		defer f.Close()
		if err := json.NewEncoder(f).Encode([3]string{sk.N.Text(16), sk.LambdaN.Text(16), sk.PhiN.Text(16)}); err != nil {
			return nil, nil, err
		}
	}
	return sk, &PublicKey{sk.N}, nil
}

func generate(modulusBitLen int) (*PrivateKey, *PublicKey, error) {
	for {
		p, err := rand.Prime(rand.Reader, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := rand.Prime(rand.Reader, modulusBitLen-modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		n := new(big.Int).Mul(p, q)
		if p.Cmp(q) == 0 || n.BitLen() != modulusBitLen {
			continue
		}
		p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
		phi := new(big.Int).Mul(p1, q1)
		if new(big.Int).GCD(nil, nil, phi, n).Cmp(one) != 0 {
			continue
		}
		lambda := new(big.Int).Div(phi, new(big.Int).GCD(nil, nil, p1, q1))
		pub := PublicKey{n}
		return &PrivateKey{pub, lambda, phi}, &pub, nil
	}
}

// NSquare returns N^2.
func (pk *PublicKey) NSquare() *big.Int { return new(big.Int).Mul(pk.N, pk.N) }

// Gamma returns N+1.
func (pk *PublicKey) Gamma() *big.Int { return new(big.Int).Add(pk.N, one) }

// Encrypt encrypts 0 <= m < N.
func (pk *PublicKey) Encrypt(m *big.Int) (*big.Int, error) {
	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	var x *big.Int
	for {
		var err error
		if x, err = rand.Int(rand.Reader, pk.N); err != nil {
			return nil, err
		}
		if x.Sign() > 0 && new(big.Int).GCD(nil, nil, x, pk.N).Cmp(one) == 0 {
			break
		}
	}
	n2 := pk.NSquare()
	gm := new(big.Int).Exp(pk.Gamma(), m, n2)
	xn := new(big.Int).Exp(x, pk.N, n2)
	return gm.Mod(gm.Mul(gm, xn), n2), nil
}

// HomoMult multiplies the plaintext of c1 by m.
func (pk *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	n2 := pk.NSquare()
	if c1.Cmp(zero) == -1 || c1.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd adds the plaintexts of c1 and c2.
func (pk *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := pk.NSquare()
	for _, c := range []*big.Int{c1, c2} {
		if c.Cmp(zero) == -1 || c.Cmp(n2) != -1 {
			return nil, ErrMessageTooLong
		}
	}
	r := new(big.Int).Mul(c1, c2)
	return r.Mod(r, n2), nil
}

// Decrypt decrypts c.
func (sk *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	n2 := sk.NSquare()
	if c.Cmp(zero) == -1 || c.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	if new(big.Int).GCD(nil, nil, c, n2).Cmp(one) == 1 {
		return nil, ErrMessageMalFormed
	}
	l := func(u *big.Int) *big.Int {
		t := new(big.Int).Sub(u, one)
		return t.Div(t, sk.N)
	}
	lc := l(new(big.Int).Exp(c, sk.LambdaN, n2))
	lg := l(new(big.Int).Exp(sk.Gamma(), sk.LambdaN, n2))
	inv := new(big.Int).ModInverse(lg, sk.N)
	m := lc.Mul(lc, inv)
	return m.Mod(m, sk.N), nil
}
