package score

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"strings"
	"testing"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/gocheck/fake"
	"verif/gocheck/jvm"
	"verif/gocheck/pbt"
)

var modules = []string{"score-util", "lib", "bmc", "bmv/btpblock", "bmv/bridge", "bmv/icon", "xcall", "nativecoin", "fee-aggregation"}

var vm *jvm.VM

// python says that vm runs the Python contracts.
var python bool

func TestMain(m *testing.M) {
	flag.Parse()
	var v *jvm.VM
	var err error
	if python = strings.HasPrefix(flag.Lookup("test.run").Value.String(), "^TestY"); python {
		v, err = jvm.StartPython()
	} else {
		v, err = jvm.Start(modules...)
	}
	if err != nil {
		fmt.Println("VERIF-INCONCLUSIVE cannot start the contracts:", err)
		os.Exit(3)
	}
	vm = v
	if err := selfTest(); err != nil {
		fmt.Println("VERIF-INCONCLUSIVE the contract runtime is wrong:", err)
		os.Exit(3)
	}
	c := m.Run()
	v.Close()
	os.Exit(c)
}

// selfTest compares the primitives of the runtime with independent ones.
func selfTest() error {
	for i := 0; i < 20; i++ {
		b := bytes.Repeat([]byte{byte(i * 7)}, i*13)
		if !python && !bytes.Equal(vm.Hash("keccak-256", b), fake.Hash(b)) {
			return fmt.Errorf("keccak of %d bytes", len(b))
		}
		s := sha3.Sum256(b)
		if !bytes.Equal(vm.Hash("sha3-256", b), s[:]) {
			return fmt.Errorf("sha3 of %d bytes", len(b))
		}
		k := key(i)
		sig, err := ethcrypto.Sign(s[:], k)
		if err != nil {
			return err
		}
		r, err := vm.Recover(s[:], sig)
		if err != nil || !bytes.Equal(r, ethcrypto.FromECDSAPub(&k.PublicKey)) {
			return fmt.Errorf("recovered key %x %v", r, err)
		}
	}
	return nil
}

func oneOf[T any](t *rapid.T, label string, xs ...T) T { return xs[pbt.Pick(t, label, len(xs))] }
func pct(t *rapid.T, label string, n int) bool         { return pbt.Pct(t, label, n) }
