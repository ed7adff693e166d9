package score

import (
	"crypto/ecdsa"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"verif/gocheck/fake"
)

var keyMemo = map[int]*ecdsa.PrivateKey{}

// key is the n-th of a fixed set of keys.
func key(n int) *ecdsa.PrivateKey {
	if k := keyMemo[n]; k != nil {
		return k
	}
	k, err := ethcrypto.ToECDSA(fake.Hash([]byte{byte(n), byte(n >> 8), 'k'}))
	if err != nil {
		panic(err)
	}
	keyMemo[n] = k
	return k
}

func ethAddr(n int) []byte { return ethcrypto.PubkeyToAddress(key(n).PublicKey).Bytes() }

var sigMemo = map[string][]byte{}

func sign(n int, hash []byte) []byte {
	m := string(append([]byte{byte(n)}, hash...))
	if s := sigMemo[m]; s != nil {
		return s
	}
	s, err := ethcrypto.Sign(hash, key(n))
	if err != nil {
		panic(err)
	}
	if len(sigMemo) > 20000 {
		sigMemo = map[string][]byte{}
	}
	sigMemo[m] = s
	return s
}
