package checks

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"strings"
	"sync"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C20",
		Rule:        "one case per signature, altered signature, key pair, pair of key pairs, or text; distinct by scenario, kind of alteration and content; non-trivial: all of them, as keys and data are fresh",
		Assumptions: []string{"the standard library's Ed25519 and X25519 are right"},
		Scenarios: []core.Scenario{
			{Name: "sign", Run: c20sign},
			{Name: "alter", Run: c20alter},
			{Name: "ecdh", Run: c20ecdh},
			{Name: "degenerate", Run: c20degenerate},
			{Name: "text", Run: c20text},
		},
	})
}

func c20keys(t *core.T, rng *mrand.Rand) (noise.PublicKey, noise.PrivateKey) {
	var r io.Reader
	switch rng.Intn(3) {
	case 0:
		r = crand.Reader
	case 1:
		r = rng
	}
	pub, priv, err := noise.GenerateKeys(r)
	if err != nil {
		t.Violation("generate", "generating keys fails: %v", err)
	}
	return pub, priv
}

type failingReader struct{ after int }

func (r *failingReader) Read(b []byte) (int, error) {
	if r.after <= 0 {
		return 0, errors.New("no entropy")
	}
	n := len(b)
	if n > r.after {
		n = r.after
	}
	r.after -= n
	return n, nil
}

// c20sign: signatures are those of the standard library, and verify.
func c20sign(t *core.T) {
	t.Require("signatures compared", 1000)
	t.Require("keys compared", 300)
	seen := map[noise.PublicKey]bool{}
	for round := 0; round < t.N(60, 600); round++ {
		t.PerturbRound(round)
		var mu sync.Mutex
		par(6, func(g int) {
			rng := t.RNG("sign", round*10+g)
			pub, priv := c20keys(t, rng)
			std := ed25519.NewKeyFromSeed(priv[:32])
			if !bytes.Equal(std.Public().(ed25519.PublicKey), pub[:]) || !bytes.Equal(std, priv[:]) {
				t.Violation("keypair", "the private key %x has the public key %x, but is reported with %x", priv[:32], std[32:], pub)
			}
			if priv.Public() != pub {
				t.Violation("keypair", "Public of the private key for %x is %x", pub, priv.Public())
			}
			mu.Lock()
			if seen[pub] {
				t.Violation("same-key", "the same key was generated twice")
			}
			seen[pub] = true
			mu.Unlock()
			t.Count("keys compared", 1)
			n, err := noise.NewNode(noise.WithNodePrivateKey(priv))
			if err != nil {
				t.Inconclusive("node: %v", err)
				return
			}
			for i := 0; i < 4; i++ {
				data := make([]byte, []int{0, 1, 31, 32, 33, 64, 111, 112, 128, rng.Intn(300), rng.Intn(20000)}[rng.Intn(11)])
				rng.Read(data)
				if len(data) == 0 && rng.Intn(2) == 0 {
					data = nil
				}
				kept := append([]byte{}, data...)
				sig := priv.Sign(data)
				if want := ed25519.Sign(std, data); !bytes.Equal(sig[:], want) {
					t.Violation("sign", "the signature of %s is %x, should be %x", short(data), sig[:8], want[:8])
				}
				if again := n.Sign(data); again != sig {
					t.Violation("sign", "a node's signature of %s is %x, that of its key %x", short(data), again[:8], sig[:8])
				}
				if !pub.Verify(data, sig) {
					t.Violation("verify", "a signature of %s does not verify", short(data))
				}
				if !ed25519.Verify(pub[:], data, sig[:]) {
					t.Violation("verify", "a signature of %s does not verify with the standard library", short(data))
				}
				if !bytes.Equal(data, kept) {
					t.Violation("clobbered", "signing changed the data")
				}
				t.Count("signatures compared", 1)
				t.Case("sign/%x", sig[:16])
			}
		})
	}
	for n := 0; n < 32; n++ {
		if pub, priv, err := noise.GenerateKeys(&failingReader{n}); err == nil && (pub == noise.ZeroPublicKey || !bytes.Equal(ed25519.NewKeyFromSeed(priv[:32])[32:], pub[:]) || bytes.Equal(priv[:32], make([]byte, 32))) {
			t.Violation("generate", "with a source of only %d random bytes, %x is generated", n, pub)
		} else if err == nil {
			t.Violation("generate", "with a source of only %d random bytes, keys are generated without an error", n)
		}
		t.Case("entropy/%d", n)
	}
}

// order of the base point
var c20order, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// c20alter: nothing else verifies.
func c20alter(t *core.T) {
	t.Require("alterations rejected", 3000)
	var prev struct {
		pub  noise.PublicKey
		sig  noise.Signature
		data []byte
	}
	for round := 0; round < t.N(24, 300); round++ {
		rng := t.RNG("alter", round)
		pub, priv := c20keys(t, rng)
		data := make([]byte, 1+rng.Intn(80))
		rng.Read(data)
		sig := priv.Sign(data)
		no := func(what string, pub noise.PublicKey, data []byte, sig noise.Signature) {
			if pub.Verify(data, sig) {
				t.Violation("forged", "%s: it verifies", what)
			}
			t.Count("alterations rejected", 1)
			t.Case("alter/%s/%d", what, round)
		}
		step := 1 // all bits at first, then some
		if round >= t.N(1, 20) {
			step = 13
		}
		for bit := rng.Intn(step); bit < 512; bit += step {
			no(fmt.Sprintf("bit %d of the signature flipped", bit), pub, data, noise.Signature(flip(sig[:], bit)))
		}
		for bit := rng.Intn(step); bit < 256; bit += step {
			no(fmt.Sprintf("bit %d of the key flipped", bit), noise.PublicKey(flip(pub[:], bit)), data, sig)
		}
		for bit := rng.Intn(step); bit < 8*len(data); bit += step {
			no(fmt.Sprintf("bit %d of the data flipped", bit), pub, flip(data, bit), sig)
		}
		no("data cut off", pub, data[:len(data)-1], sig)
		no("data extended", pub, append(append([]byte{}, data...), 0), sig)
		no("data missing", pub, nil, sig)
		no("signature zero", pub, data, noise.ZeroSignature)
		no("key zero", noise.ZeroPublicKey, data, sig)
		var swapped noise.Signature
		copy(swapped[:32], sig[32:])
		copy(swapped[32:], sig[:32])
		no("halves of the signature swapped", pub, data, swapped)
		for i := 0; i < 32; i++ {
			x := sig
			x[32+i], x[i] = x[i], x[32+i]
			if x != sig {
				no(fmt.Sprintf("bytes %d of the signature swapped", i), pub, data, x)
			}
		}
		// The same S, modulo the order of the group.
		s := new(big.Int)
		be := make([]byte, 32)
		for i := range be {
			be[i] = sig[63-i]
		}
		s.SetBytes(be)
		for k := int64(1); k <= 15; k++ {
			m := new(big.Int).Add(s, new(big.Int).Mul(big.NewInt(k), c20order))
			if m.BitLen() > 256 {
				break
			}
			x := sig
			for i, b := range m.FillBytes(make([]byte, 32)) {
				x[63-i] = b
			}
			no(fmt.Sprintf("%d times the order added to the signature", k), pub, data, x)
		}
		// Negated S or R.
		x := sig
		for i, b := range new(big.Int).Sub(c20order, s).FillBytes(make([]byte, 32)) {
			x[63-i] = b
		}
		no("S negated", pub, data, x)
		// Other keys, other data.
		pub2, priv2 := c20keys(t, rng)
		no("signed with another key", pub, data, priv2.Sign(data))
		no("other key", pub2, data, sig)
		if prev.data != nil {
			no("signature of other data", pub, data, prev.sig)
			no("older signature", prev.pub, data, sig)
			x := sig
			copy(x[32:], prev.sig[32:])
			no("S of another signature", pub, data, x)
		}
		// Signatures that need no key of one's own, for ordinary keys.
		for i, w := range weakPoints {
			var x noise.Signature
			copy(x[:], w)
			no(fmt.Sprintf("weak point %d as R, zero S", i), pub, data, x)
			copy(x[:32], pub[:])
			no("key as R, zero S", pub, data, x)
		}
		prev.pub, prev.sig, prev.data = pub, sig, data
	}
}

// c20ecdh: both sides agree, with each other and with the standard library.
func c20ecdh(t *core.T) {
	t.Require("secrets compared", 500)
	var mu sync.Mutex
	secrets := map[string]string{}
	for round := 0; round < t.N(30, 400); round++ {
		t.PerturbRound(round)
		par(4, func(g int) {
			rng := t.RNG("ecdh", round*10+g)
			const k = 4
			var pubs [k]noise.PublicKey
			var privs [k]noise.PrivateKey
			for i := range pubs {
				pubs[i], privs[i] = c20keys(t, rng)
			}
			for i := 0; i < k; i++ {
				for j := 0; j <= i; j++ {
					a, err := noise.ECDH(privs[i], pubs[j])
					b, err2 := noise.ECDH(privs[j], pubs[i])
					if err != nil || err2 != nil {
						t.Violation("ecdh", "ECDH of ordinary keys fails: %v %v", err, err2)
						continue
					}
					if !bytes.Equal(a, b) {
						t.Violation("ecdh-disagree", "two sides derive %x and %x", a, b)
					}
					want, err := wire.Shared(ed25519.PrivateKey(privs[i][:]), pubs[j][:])
					if err != nil || !bytes.Equal(a, want) {
						t.Violation("ecdh-standard", "the keys with seeds %x and %x derive %x, should be %x", privs[i][:32], privs[j][:32], a, want)
					}
					key := fmt.Sprintf("%x/%x", pubs[i], pubs[j])
					mu.Lock()
					if o, dup := secrets[string(a)]; dup && o != key {
						t.Violation("ecdh-same", "different pairs derive the same secret %x", a)
					}
					secrets[string(a)] = key
					mu.Unlock()
					t.Count("secrets compared", 1)
					t.Case("ecdh/%x", a[:8])
				}
			}
		})
	}
	// Keys whose converted form has any number of bits.
	prime := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	_, mine, _ := noise.GenerateKeys(nil)
	for n := 0; n < t.N(1000, 20000); n++ {
		u := new(big.Int).SetBytes(func() []byte { b := make([]byte, 32); t.Rand.Read(b); return b }())
		u.Rsh(u, uint(1+t.Rand.Intn(253)))
		if n%3 == 0 { // ends with zeros
			u.Lsh(u, uint(t.Rand.Intn(256-u.BitLen())))
		}
		u.Mod(u, prime)
		down := new(big.Int).ModInverse(new(big.Int).Add(u, big.NewInt(1)), prime)
		if u.BitLen() < 3 || down == nil {
			continue
		}
		y := down.Mul(down, new(big.Int).Sub(u, big.NewInt(1)))
		y.Mod(y, prime)
		var pub noise.PublicKey
		for i, b := range y.FillBytes(make([]byte, 32)) {
			pub[31-i] = b
		}
		pub[31] |= byte(t.Rand.Intn(2)) << 7
		want, err := wire.Shared(ed25519.PrivateKey(mine[:]), pub[:])
		if err != nil {
			continue
		}
		if got, err := noise.ECDH(mine, pub); err != nil || !bytes.Equal(got, want) {
			t.Violation("ecdh-standard", "with the key %x, whose converted form has %d bits, %x is derived (%v), should be %x", pub, u.BitLen(), got, err, want)
		}
		t.Count("secrets of keys with converted forms of any length", 1)
		t.Case("bits/%x", pub[:8])
	}
	// Keys whose converted form begins or ends with zeros.
	want := t.N(4000, 100000)
	_, priv, _ := noise.GenerateKeys(nil)
	for i := 0; i < want; i++ {
		var seed [32]byte
		t.Rand.Read(seed[:])
		pub := noise.PublicKey(ed25519.NewKeyFromSeed(seed[:]).Public().(ed25519.PublicKey))
		u := wire.Montgomery(pub[:])
		if u[31] != 0 && u[0] != 0 {
			continue
		}
		a, err := noise.ECDH(priv, pub)
		b, err2 := wire.Shared(ed25519.PrivateKey(priv[:]), pub[:])
		if err != nil || err2 != nil || !bytes.Equal(a, b) {
			t.Violation("ecdh-standard", "with the key %x (converted: %x), %x is derived (%v), should be %x (%v)", pub, u, a, err, b, err2)
		}
		t.Count("secrets of keys with leading or trailing zeros", 1)
		t.Case("zeros/%x", pub[:8])
	}
}

// c20degenerate: keys that are no ordinary points.
func c20degenerate(t *core.T) {
	t.Require("degenerate keys rejected", 100)
	t.Require("arbitrary keys", 300)
	p, _ := new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	le := func(n *big.Int) (b [32]byte) {
		for i, x := range n.FillBytes(make([]byte, 32)) {
			b[31-i] = x
		}
		return
	}
	var weak [][32]byte
	for _, w := range weakPoints {
		weak = append(weak, [32]byte(w))
	}
	for _, d := range []int64{-1, 0, 1} { // not reduced
		weak = append(weak, le(new(big.Int).Add(p, big.NewInt(d))))
	}
	one := le(big.NewInt(1))
	weak = append(weak, one)
	for _, w := range append([][32]byte{}, weak...) { // with the sign of x
		w[31] ^= 0x80
		weak = append(weak, w)
	}
	for round := 0; round < t.N(10, 100); round++ {
		rng := t.RNG("degenerate", round)
		_, priv := c20keys(t, rng)
		for i, w := range weak {
			var s []byte
			var err error
			if g := guarded(func() { s, err = noise.ECDH(priv, noise.PublicKey(w)) }); g != nil {
				t.Violation("panic", "ECDH with the degenerate key %x panicked: %v", w, g)
			} else if err == nil {
				t.Violation("degenerate", "ECDH with the degenerate key %x derives %x, should be an error", w, s)
			}
			t.Count("degenerate keys rejected", 1)
			t.Case("degenerate/%d/%d", i, round)
		}
		for i := 0; i < 60; i++ {
			var k noise.PublicKey
			rng.Read(k[:])
			switch i % 6 {
			case 1:
				k = noise.PublicKey(le(big.NewInt(int64(2 + rng.Intn(50)))))
			case 2:
				k = noise.PublicKey(le(new(big.Int).Sub(p, big.NewInt(int64(2+rng.Intn(50))))))
			case 3:
				copy(k[1+rng.Intn(20):31], make([]byte, 31))
			}
			var s []byte
			var err error
			if g := guarded(func() { s, err = noise.ECDH(priv, k) }); g != nil {
				t.Violation("panic", "ECDH with the key %x panicked: %v", k, g)
				continue
			}
			want, werr := wire.Shared(ed25519.PrivateKey(priv[:]), k[:])
			if err == nil && (werr != nil || !bytes.Equal(s, want)) {
				t.Violation("ecdh-standard", "with the key %x, %x is derived, should be %x (%v)", k, s, want, werr)
			}
			t.Count("arbitrary keys", 1)
			t.Case("arbitrary/%x", k[:8])
		}
	}
}

// c20text: textual forms.
func c20text(t *core.T) {
	t.Require("texts", 1000)
	for round := 0; round < t.N(100, 1000); round++ {
		rng := t.RNG("text", round)
		pub, priv := c20keys(t, rng)
		data := make([]byte, 20)
		rng.Read(data)
		sig := priv.Sign(data)
		if round%5 == 0 { // values with zeros
			copy(pub[:], make([]byte, 1+rng.Intn(31)))
			copy(sig[rng.Intn(40):], make([]byte, 20))
		}
		forms := []struct {
			name string
			raw  []byte
			str  string
			val  any
		}{{"public key", pub[:], pub.String(), pub}, {"private key", priv[:], priv.String(), priv}, {"signature", sig[:], sig.String(), sig}}
		for _, f := range forms {
			if b, err := hex.DecodeString(f.str); err != nil || !bytes.Equal(b, f.raw) {
				t.Violation("text", "the text of the %s %x is %q", f.name, f.raw, f.str)
			}
			if s := fmt.Sprint(f.val); s != f.str {
				t.Violation("text", "the text of the %s %x is %q, but it is printed as %q", f.name, f.raw, f.str, s)
			}
			j, err := json.Marshal(map[string]any{"x": f.val})
			var back struct{ X string }
			if err != nil || json.Unmarshal(j, &back) != nil {
				t.Violation("json", "the JSON of the %s %x is %s, %v", f.name, f.raw, j, err)
			} else if b, err := hex.DecodeString(back.X); err != nil || !bytes.Equal(b, f.raw) {
				t.Violation("json", "the JSON of the %s %x is %s", f.name, f.raw, j)
			}
			t.Count("texts", 1)
			t.Case("text/%s/%x", f.name, f.raw[:8])
		}
		for _, s := range []string{priv.String(), strings.ToUpper(priv.String())} {
			back, err := noise.LoadKeysFromHex(s)
			if err != nil || back != priv {
				t.Violation("load", "loading %q gives %x, %v", s, back, err)
			}
		}
		buf := append([]byte{}, sig[:]...)
		got := noise.UnmarshalSignature(buf)
		gotLong := noise.UnmarshalSignature(append(append([]byte{}, sig[:]...), 1, 2, 3))
		rng.Read(buf)
		if got != sig || gotLong != sig {
			t.Violation("signature", "the signature %x is decoded as %x, and with more data behind it as %x", sig, got, gotLong)
		}
		for n := 0; n < 64; n += 1 + rng.Intn(6) {
			n := n
			if g := guarded(func() { noise.UnmarshalSignature(sig[:n:n]) }); g == nil {
				t.Violation("signature", "%d bytes are decoded as a signature", n)
			}
		}
		h := priv.String()
		bad := map[string]string{
			"empty": "", "one digit": h[:1], "odd": h[:127], "a byte short": h[:126], "half": h[:64], "a byte long": h + "00", "twice": h + h,
			"prefix": "0x" + h, "prefix of the right length": "0x" + h[2:], "space before": " " + h, "space behind": h + " ", "newline": h + "\n", "no digit": h[:40] + "g" + h[41:], "not ASCII": h[:40] + "é" + h[42:], "public key": pub.String(), "spaces": strings.Repeat(" ", 128), "zero byte": h[:127] + "\x00",
		}
		for what, s := range bad {
			k, err := noise.LoadKeysFromHex(s)
			if err == nil {
				t.Violation("load-malformed", "loading a malformed key (%s: %q) gives %x and no error", what, s, k)
			} else if _, herr := hex.DecodeString(s); herr == nil && !errors.Is(err, io.ErrUnexpectedEOF) {
				t.Violation("load-error", "loading a key of the wrong length (%s) gives the error %q, which is not io.ErrUnexpectedEOF", what, err)
			}
			t.Count("texts", 1)
			t.Case("malformed/%s/%d", what, round)
		}
	}
}
