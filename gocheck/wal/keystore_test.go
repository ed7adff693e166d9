package wal

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"golang.org/x/crypto/hkdf"
	"io"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	guuid "github.com/google/uuid"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"
	"golang.org/x/crypto/scrypt"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/gocheck/pbt"
)

func icxAddress(k []byte) string {
	_, uncomp := refPub(k)
	d := sha3.Sum256(uncomp[1:])
	return "hx" + hex.EncodeToString(d[12:])
}

func password(t *rapid.T, label string) []byte {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 40),
		rapid.Map(rapid.StringMatching(`[a-zA-Z0-9 _!\n]{0,20}`), func(s string) []byte { return []byte(s) }),
		rapid.Custom(func(t *rapid.T) []byte {
			return append(bytes.Repeat([]byte("pw"), rapid.SampledFrom([]int{8, 15, 16, 31, 32, 36, 64, 128, 300}).Draw(t, "times")), rapid.Byte().Draw(t, "last"))
		}),
	).Draw(t, label)
}

// refKeystore is written from the Web3 secret storage definition.
func refKeystore(t *rapid.T, k, pw []byte) map[string]interface{} {
	salt := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "salt")
	iv := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "iv")
	n := 1 << rapid.IntRange(1, 6).Draw(t, "n")
	r := rapid.IntRange(1, 4).Draw(t, "r")
	p := rapid.IntRange(1, 3).Draw(t, "p")
	dk, err := scrypt.Key(pw, salt, n, r, p, 32)
	if err != nil {
		panic(err)
	}
	blk, _ := aes.NewCipher(dk[:16])
	ct := make([]byte, len(k))
	cipher.NewCTR(blk, iv).XORKeyStream(ct, k)
	m := sha3.NewLegacyKeccak256()
	m.Write(dk[16:32])
	m.Write(ct)
	return map[string]interface{}{
		"address": icxAddress(k), "id": "6f3a4b5c-0d1e-4f2a-8b3c-4d5e6f708192", "version": 3, "coinType": "icx",
		"crypto": map[string]interface{}{
			"cipher": "aes-128-ctr", "cipherparams": map[string]interface{}{"iv": hex.EncodeToString(iv)},
			"ciphertext": hex.EncodeToString(ct), "kdf": "scrypt",
			"kdfparams": map[string]interface{}{"dklen": 32, "n": n, "r": r, "p": p, "salt": hex.EncodeToString(salt)},
			"mac":       hex.EncodeToString(m.Sum(nil)),
		},
	}
}

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// checkWallet: w holds exactly the key k
func checkWallet(t *rapid.T, w wallet.Wallet, k []byte) {
	comp, uncomp := refPub(k)
	if w.Address() != icxAddress(k) || !bytes.Equal(w.PublicKey(), comp) {
		t.Fatalf("wallet of %s, want %s", w.Address(), icxAddress(k))
	}
	h := bytes.Repeat([]byte{3}, 32)
	s, err := w.Sign(h)
	if err != nil {
		t.Fatal(err)
	}
	if rp, err := ethcrypto.Ecrecover(h, s); err != nil || !bytes.Equal(rp, uncomp) {
		t.Fatalf("wallet signs as %x %v", rp, err)
	}
}

// The key store written for a key opens with its password, and only with it.
func TestC02_EncryptThenDecrypt(t *testing.T) {
	pbt.Check(t, 2, "every case encrypts a generated key under a generated password", func(t *rapid.T, c *pbt.Case) {
		k, pw := key(t, "key"), password(t, "pw")
		c.Key("key=%x pw=%q", k, pw)
		c.NonTrivial(true)
		sk, _ := crypto.ParsePrivateKey(k)
		var data []byte
		var err error
		if rapid.Bool().Draw(t, "fromWallet") {
			w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
			data, err = wallet.KeyStoreFromWallet(w, pw)
		} else {
			data, err = wallet.EncryptKeyAsKeyStore(sk, pw)
		}
		if err != nil || len(data) == 0 {
			t.Fatalf("encrypt: %v (%d bytes)", err, len(data))
		}
		if bytes.Contains(data, []byte(hex.EncodeToString(k))) {
			t.Fatalf("key in clear in %s", data)
		}
		a, err := wallet.ReadAddressFromKeyStore(data)
		if err != nil || a.String() != icxAddress(k) {
			t.Fatalf("address %v %v, want %s", a, err, icxAddress(k))
		}
		w, err := wallet.DecryptKeyStore(data, pw)
		if err != nil {
			t.Fatalf("decrypt: %v", err)
		}
		checkWallet(t, w, k)
		// an independent implementation opens it (Web3 secret storage)
		var m map[string]interface{}
		if err := json.Unmarshal(data, &m); err != nil {
			t.Fatal(err)
		}
		gk, err := keystore.DecryptKey(data, string(pw))
		if err != nil || !bytes.Equal(ethcrypto.FromECDSA(gk.PrivateKey), k) {
			t.Fatalf("go-ethereum cannot open the key store: %v", err)
		}
		pw2 := password(t, "pw2")
		if len(pw) > 0 && rapid.Bool().Draw(t, "near") {
			// all but the last byte, or all with another last byte
			pw2 = append([]byte(nil), pw[:len(pw)-1]...)
			if rapid.Bool().Draw(t, "other") {
				pw2 = append(pw2, pw[len(pw)-1]^0x20)
			}
		}
		if samePassword(pw2, pw) { // also "" and "\x00": the keys of HMAC are padded with zeros
			pw2 = append(pw2, 'x')
		}
		if w, err := wallet.DecryptKeyStore(data, pw2); err == nil {
			t.Fatalf("opened with password %q as %s", pw2, w.Address())
		}
	})
}

// Key stores written elsewhere open with their password; an altered one never
// yields another key, and never crashes the reader.
func TestC02_ForeignAndTampered(t *testing.T) {
	pbt.Check(t, 150, "the key store was altered in at least one field", func(t *rapid.T, c *pbt.Case) {
		k, pw := key(t, "key"), password(t, "pw")
		ks := refKeystore(t, k, pw)
		cr := ks["crypto"].(map[string]interface{})
		good := js(ks)
		goodMac, goodText, goodAddr, goodPw := cr["mac"], cr["ciphertext"], ks["address"], append([]byte(nil), pw...)
		w, err := wallet.DecryptKeyStore(good, pw)
		if err != nil {
			t.Fatalf("cannot open %s with %q: %v", good, pw, err)
		}
		checkWallet(t, w, k)
		ksd, err := wallet.NewKeyStoreData(good)
		if err != nil {
			t.Fatal(err)
		}
		if sk, err := wallet.DecryptICONKeyStore(ksd, pw); err != nil || !bytes.Equal(sk.Bytes(), k) {
			t.Fatalf("DecryptICONKeyStore: %v %v", sk, err)
		}
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "edits"); i < n; i++ {
			kp := cr["kdfparams"].(map[string]interface{})
			cp := cr["cipherparams"].(map[string]interface{})
			hexEdit := func(m map[string]interface{}, f string) {
				s, _ := m[f].(string)
				switch rapid.IntRange(0, 3).Draw(t, "hexedit") {
				case 0:
					m[f] = ""
				case 1:
					if len(s) >= 2 {
						m[f] = s[2:]
					} else {
						m[f] = "00"
					}
				case 2:
					m[f] = s + "00"
				default:
					if len(s) > 0 {
						j := rapid.IntRange(0, len(s)-1).Draw(t, "pos")
						r := "0123456789abcdef"[rapid.IntRange(0, 15).Draw(t, "hexdigit")]
						m[f] = s[:j] + string(r) + s[j+1:]
					}
				}
			}
			switch rapid.IntRange(0, 14).Draw(t, "field") {
			case 0:
				hexEdit(cr, "ciphertext")
			case 1:
				hexEdit(cr, "mac")
			case 2:
				hexEdit(cp, "iv")
			case 3:
				hexEdit(kp, "salt")
			case 4:
				kp["dklen"] = rapid.SampledFrom([]int{-1, 0, 1, 8, 16, 24, 31, 33, 64}).Draw(t, "dklen")
			case 5:
				kp["n"] = rapid.SampledFrom([]int{-2, 0, 1, 2, 3, 128}).Draw(t, "n2")
			case 6:
				kp[rapid.SampledFrom([]string{"r", "p"}).Draw(t, "rp")] = rapid.SampledFrom([]int{-1, 0, 1, 5}).Draw(t, "rpv")
			case 7:
				cr["kdf"] = rapid.SampledFrom([]string{"", "pbkdf2", "Scrypt"}).Draw(t, "kdf")
			case 8:
				cr["cipher"] = rapid.SampledFrom([]string{"", "aes-128-cbc"}).Draw(t, "cipher")
			case 9:
				ks["coinType"] = rapid.SampledFrom([]string{"btc", "ICX", "icx "}).Draw(t, "coin")
			case 10:
				switch rapid.IntRange(0, 3).Draw(t, "addr") {
				case 0:
					ks["address"] = "hx" + strings.Repeat("0", 40)
				case 1:
					delete(ks, "address")
				default:
					ks["address"] = icxAddress(key(t, "other"))
				}
			case 11:
				delete(cr, rapid.SampledFrom([]string{"cipher", "ciphertext", "kdf", "mac"}).Draw(t, "drop"))
			case 12:
				if a, ok := ks["address"].(string); ok {
					ks["address"] = strings.Replace(a, "hx", "cx", 1)
				}
			case 13:
				if n := len(pw); n > 0 {
					pw = append(append([]byte(nil), pw[:n-1]...), pw[n-1]^1<<rapid.IntRange(0, 7).Draw(t, "pwbit"))
				}
			default:
				pw = append(append([]byte(nil), pw...), rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "pwtail")...)
			}
		}
		bad := js(ks)
		c.Key("%s pw=%q", bad, pw)
		c.NonTrivial(!bytes.Equal(bad, good))
		if m := pbt.NoPanic(func() { w, err = wallet.DecryptKeyStore(bad, pw) }); m != "" {
			t.Fatalf("%s with %q: %s", bad, pw, m)
		}
		if err == nil {
			// only an edit without effect on the key may pass
			checkWallet(t, w, k)
			if cr["mac"] != goodMac || cr["ciphertext"] != goodText || ks["address"] != goodAddr {
				t.Fatalf("opened %s although it was altered", bad)
			}
			if !samePassword(pw, goodPw) {
				t.Fatalf("opened %s with %q instead of %q", bad, pw, goodPw)
			}
			c.Label("still opens")
		} else {
			c.Label("refused")
		}
	})
}

// samePassword: scrypt pads a password with zero bytes to the block of its
// hash, and hashes a longer one first.
func samePassword(a, b []byte) bool {
	norm := func(p []byte) []byte {
		if len(p) > 64 {
			h := sha256.Sum256(p)
			p = h[:]
		}
		return bytes.TrimRight(p, "\x00")
	}
	return bytes.Equal(norm(a), norm(b))
}

// Ethereum key stores (coin type absent or evm) open to the same account
// go-ethereum derives, whatever the key.
func TestC02_Evm(t *testing.T) {
	pbt.Check(t, 100, "every case opens a generated Ethereum key store", func(t *rapid.T, c *pbt.Case) {
		k, pw := key(t, "key"), rapid.String().Draw(t, "pw")
		sk, _ := ethcrypto.ToECDSA(k)
		want := ethcrypto.PubkeyToAddress(sk.PublicKey)
		id := guuid.UUID{1, 2, 3}
		data, err := keystore.EncryptKey(&keystore.Key{Id: id, Address: want, PrivateKey: sk}, pw, 2, 1)
		if err != nil {
			panic(err)
		}
		var m map[string]interface{}
		if err := json.Unmarshal(data, &m); err != nil {
			panic(err)
		}
		if rapid.Bool().Draw(t, "evm") {
			m["coinType"] = "evm"
		}
		if rapid.Bool().Draw(t, "0x") {
			m["address"] = "0x" + m["address"].(string)
		}
		data = js(m)
		c.Key("%s %q", data, pw)
		c.NonTrivial(true)
		var w wallet.Wallet
		if p := pbt.NoPanic(func() { w, err = wallet.DecryptKeyStore(data, []byte(pw)) }); p != "" {
			t.Fatalf("%s: %s", data, p)
		}
		if err != nil {
			t.Fatalf("cannot open %s: %v", data, err)
		}
		if w.Address() != want.Hex() {
			t.Fatalf("address %s, want %s", w.Address(), want.Hex())
		}
		ew, ok := w.(*wallet.EvmWallet)
		if !ok || !bytes.Equal(ethcrypto.FromECDSA(ew.Skey), k) || !bytes.Equal(w.PublicKey(), ethcrypto.FromECDSAPub(&sk.PublicKey)) {
			t.Fatalf("wallet %T holds another key", w)
		}
		if w, err := wallet.DecryptKeyStore(data, []byte(pw+"x")); err == nil {
			t.Fatalf("opened with a wrong password as %s", w.Address())
		}
		if a, err := wallet.ReadAddressFromKeyStore(data); err == nil {
			t.Fatalf("ICON address %s of an Ethereum key store", a)
		}
	})
}

// Arbitrary documents are refused without a crash.
func TestC02_HostileDocument(t *testing.T) {
	frag := rapid.SampledFrom([]string{"{", "}", "[", "]", ",", ":", `"crypto"`, `"coinType"`, `"icx"`, `"evm"`, `"kdf"`, `"scrypt"`,
		`"kdfparams"`, `"cipherparams"`, `"cipher"`, `"aes-128-ctr"`, "null", "1", "-1", `""`, `"mac"`, `"ciphertext"`, `"address"`, `"hx00"`, `"version"`, "3"})
	pbt.Check(t, 400, "document is a JSON object", func(t *rapid.T, c *pbt.Case) {
		var data []byte
		if rapid.Bool().Draw(t, "frags") {
			data = []byte(strings.Join(rapid.SliceOfN(frag, 0, 30).Draw(t, "d"), ""))
		} else {
			val := func(l string) interface{} {
				return rapid.SampledFrom([]interface{}{nil, "", "icx", "evm", "scrypt", "aes-128-ctr", 0, 1, -1, map[string]interface{}{}, []int{}, "00", "zz",
					map[string]interface{}{"iv": "00"}, map[string]interface{}{"n": 2, "r": 1, "p": 1, "dklen": 8}, map[string]interface{}{"n": 2, "r": 1, "p": 1, "dklen": 32, "salt": nil}}).Draw(t, l)
			}
			cr := map[string]interface{}{}
			for _, f := range []string{"cipher", "cipherparams", "ciphertext", "kdf", "kdfparams", "mac"} {
				if rapid.IntRange(0, 4).Draw(t, f) > 0 {
					cr[f] = val(f)
				}
			}
			if rapid.Bool().Draw(t, "names") {
				cr["cipher"], cr["kdf"] = "aes-128-ctr", "scrypt"
			}
			coin := rapid.SampledFrom([]string{"icx", "icx", "icx", "evm", "", "x"}).Draw(t, "coin")
			if coin == "evm" || coin == "" {
				cr = map[string]interface{}{} // what follows is read by go-ethereum
			}
			data = js(map[string]interface{}{"coinType": coin, "version": val("v"), "crypto": cr, "address": rapid.SampledFrom([]interface{}{"", "hx", "hx00", nil, 1, "hx0000000000000000000000000000000000000000"}).Draw(t, "a")})
		}
		c.Key("%s", data)
		var m map[string]interface{}
		c.NonTrivial(json.Unmarshal(data, &m) == nil)
		if p := pbt.NoPanic(func() {
			if w, err := wallet.DecryptKeyStore(data, []byte("pw")); err == nil {
				t.Fatalf("opened %s as %s", data, w.Address())
			}
			wallet.ReadAddressFromKeyStore(data)
		}); p != "" {
			t.Fatalf("%s: %s", data, p)
		}
	})
}

// What one wallet encrypts for another one, exactly the other one reads.
func TestC03_EncryptedExchange(t *testing.T) {
	pbt.Check(t, 60, "message is not empty", func(t *rapid.T, c *pbt.Case) {
		ka, kb, kc := key(t, "a"), key(t, "b"), key(t, "c")
		mk := func(k []byte) wallet.Wallet {
			sk, _ := crypto.ParsePrivateKey(k)
			w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
			return w
		}
		a, b, o := mk(ka), mk(kb), mk(kc)
		msg := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "msg")
		c.Key("a=%x b=%x msg=%x", ka, kb, msg)
		c.NonTrivial(len(msg) > 0)
		orig := append([]byte(nil), msg...)
		bpub := b.PublicKey()
		e, err := wallet.NewEncrypted(a, append([]byte(nil), bpub...), msg)
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(msg, orig) {
			t.Fatalf("plain text changed to %x", msg)
		}
		// over the wire
		var e2 wallet.Encrypted
		if err := json.Unmarshal(js(e), &e2); err != nil {
			t.Fatal(err)
		}
		got, err := e2.Decrypt(b)
		if err != nil || !bytes.Equal(got, orig) {
			t.Fatalf("decrypted %x %v, want %x", got, err, orig)
		}
		if again, err := e2.Decrypt(b); err != nil || !bytes.Equal(again, orig) {
			t.Fatalf("second decryption %x %v, want %x", again, err, orig)
		}
		// as an independent implementation reads it: AES-128-CTR under a key
		// derived from the shared secret and the salt
		if len(e.Param) != 4+33 || !bytes.Equal(e.Param[4:], a.PublicKey()) {
			t.Fatalf("parameters %x", e.Param)
		}
		sec, err := b.ECDH(a.PublicKey())
		if err != nil {
			t.Fatal(err)
		}
		dk := make([]byte, 32)
		if _, err := io.ReadFull(hkdf.New(sha3.New256, sec, e.Param[:4], []byte("BTP_SECRET_HKDF")), dk); err != nil {
			t.Fatal(err)
		}
		blk, _ := aes.NewCipher(dk[:16])
		plain := make([]byte, len(e.CipherText))
		cipher.NewCTR(blk, dk[16:]).XORKeyStream(plain, e.CipherText)
		if !bytes.Equal(plain, orig) {
			t.Fatalf("another implementation reads %x, want %x", plain, orig)
		}
		if len(orig) >= 16 {
			if bytes.Contains(e.CipherText, orig) {
				t.Fatalf("plain text in %x", e.CipherText)
			}
			if !bytes.Equal(kc, ka) && !bytes.Equal(kc, kb) {
				if got, err := e2.Decrypt(o); err == nil && bytes.Equal(got, orig) {
					t.Fatalf("a third wallet reads it")
				}
			}
			e3, err := wallet.NewEncrypted(a, bpub, orig)
			if err != nil {
				t.Fatal(err)
			}
			if bytes.Equal(e3.CipherText, e.CipherText) && !bytes.Equal(e3.Param, e.Param) {
				t.Fatalf("the salt has no effect")
			}
			// the answer, encrypted back under the same parameters
			e4 := wallet.Encrypted{Param: e2.Param, CipherText: make([]byte, len(orig))}
			if err := e4.Encrypt(b, orig); err != nil || !bytes.Equal(e4.CipherText, e2.CipherText) {
				t.Fatalf("re-encryption differs: %x %v, want %x", e4.CipherText, err, e2.CipherText)
			}
			if got, err := e4.Decrypt(b); err != nil || !bytes.Equal(got, orig) {
				t.Fatalf("re-encryption reads %x %v, want %x", got, err, orig)
			}
		}
		// shared secret is symmetric
		s1, err1 := a.ECDH(b.PublicKey())
		s2, err2 := b.ECDH(a.PublicKey())
		if err1 != nil || err2 != nil || len(s1) == 0 || !bytes.Equal(s1, s2) {
			t.Fatalf("ECDH %x %v / %x %v", s1, err1, s2, err2)
		}
		_, unc := refPub(kb)
		if s3, err := a.ECDH(unc); err != nil || !bytes.Equal(s3, s1) {
			t.Fatalf("ECDH with the uncompressed key %x %v, want %x", s3, err, s1)
		}
	})
}

// A parameter that is no public key is refused: nothing is ever encrypted
// under a secret that anybody can compute.
func TestC03_InvalidPeerKey(t *testing.T) {
	pbt.Check(t, 200, "parameter is not a valid public key", func(t *rapid.T, c *pbt.Case) {
		sk, _ := crypto.ParsePrivateKey(key(t, "a"))
		a, _ := wallet.NewIcxWalletFromPrivateKey(sk)
		n := rapid.SampledFrom([]int{0, 1, 32, 33, 33, 33, 34, 64, 65, 66}).Draw(t, "n")
		pub := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "pub")
		if n == 33 && rapid.Bool().Draw(t, "prefix") {
			pub[0] = 2 + pub[0]&1
		}
		valid := false
		switch n {
		case 33:
			_, err := ethcrypto.DecompressPubkey(pub)
			valid = err == nil
		case 65:
			_, err := ethcrypto.UnmarshalPubkey(pub)
			valid = err == nil
		}
		c.Key("%x", pub)
		c.NonTrivial(!valid)
		if n == 65 {
			return // the second coordinate is documented as unchecked
		}
		var e *wallet.Encrypted
		var s []byte
		var err, err2 error
		if m := pbt.NoPanic(func() {
			e, err = wallet.NewEncrypted(a, pub, []byte("message message message"))
			s, err2 = a.ECDH(pub)
			(&wallet.Encrypted{Param: append([]byte{1, 2, 3, 4}, pub...), CipherText: []byte{1}}).Decrypt(a)
			(&wallet.Encrypted{Param: pub, CipherText: []byte{1}}).Decrypt(a)
		}); m != "" {
			t.Fatalf("peer key %x: %s", pub, m)
		}
		if (err == nil) != valid || (err2 == nil) != valid {
			t.Fatalf("peer key %x valid=%v: encrypted %v (%v), ECDH %x (%v)", pub, valid, e != nil, err, s, err2)
		}
	})
}

var _ = common.NewAddress
