package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ideal RSA: a signature verifies exactly if it is the one the key makes of the digest, a ciphertext decrypts
// exactly if it was made for the key with the same scheme. Signatures and ciphertexts are fixed byte strings as long
// as the modulus; plaintexts may be symbolic. The native replay uses the real crypto/rsa.

type rsaCipher struct {
	key, scheme string
	ct          []byte
	plain       []*Term
}

func (in *Interp) rsaKey(v Value) string {
	pub := in.prog.ImportedPackage("crypto/rsa").Type("PublicKey").Type().Underlying().(*types.Struct)
	nt := pub.Field(0).Type()
	np := in.loadAny(v, nt)
	progMu.Lock()
	m := in.prog.LookupMethod(nt, nil, "Bytes")
	progMu.Unlock()
	b, ok := in.concBytes(in.callSync(&Closure{fn: m}, []Value{np}).(*SliceV))
	if !ok {
		panic(unsupported("symbolic RSA key"))
	}
	return string(b)
}

func (in *Interp) concBytes(s *SliceV) ([]byte, bool) {
	ts := in.sliceBytes(s)
	b := make([]byte, len(ts))
	for i, t := range ts {
		c, ok := constOf(t)
		if !ok {
			return nil, false
		}
		b[i] = byte(c)
	}
	return b, true
}

func rsaTag(n int, parts ...string) []byte {
	var out []byte
	for k := uint32(0); len(out) < n; k++ {
		h := sha256.New()
		var c [4]byte
		binary.LittleEndian.PutUint32(c[:], k)
		h.Write(c[:])
		for _, p := range parts {
			binary.LittleEndian.PutUint32(c[:], uint32(len(p)))
			h.Write(c[:])
			h.Write([]byte(p))
		}
		out = h.Sum(out)
	}
	return out[:n]
}

func (in *Interp) constBytes(b []byte) *SliceV {
	ts := make([]*Term, len(b))
	for i, c := range b {
		ts[i] = in.P.BV(8, uint64(c))
	}
	return in.mkBytes(ts)
}

func hashName(v Value) string {
	i, ok := v.(*Iface)
	if !ok || i == nil {
		return "nil"
	}
	return i.t.String()
}

func init() {
	sign := func(scheme string) Intrinsic {
		return func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			key := in.rsaKey(a[1])
			h, _ := constOf(a[2])
			d, ok := in.concBytes(a[3].(*SliceV))
			if !ok {
				panic(unsupported("signing a symbolic digest"))
			}
			return Tuple{in.constBytes(rsaTag(len(key), "sign", scheme, key, fmt.Sprint(h), string(d))), (*Iface)(nil)}
		}
	}
	verify := func(scheme string) Intrinsic {
		return func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			key := in.rsaKey(a[0])
			h, _ := constOf(a[1])
			d, ok := in.concBytes(a[2].(*SliceV))
			if !ok {
				panic(unsupported("verifying a symbolic digest"))
			}
			want := in.constBytes(rsaTag(len(key), "sign", scheme, key, fmt.Sprint(h), string(d)))
			if in.branch(in.bytesEq(a[3].(*SliceV), want)) {
				return (*Iface)(nil)
			}
			return in.mkError("crypto/rsa: verification error")
		}
	}
	reg("crypto/rsa.SignPKCS1v15", sign("pkcs1"))
	reg("crypto/rsa.SignPSS", sign("pss"))
	reg("crypto/rsa.VerifyPKCS1v15", verify("pkcs1"))
	reg("crypto/rsa.VerifyPSS", verify("pss"))
	encrypt := func(in *Interp, keyv Value, scheme string, overhead int, msg *SliceV) Value {
		key := in.rsaKey(keyv)
		plain := in.sliceBytes(msg)
		if len(plain) > len(key)-overhead {
			return Tuple{in.nilSlice, in.mkError("crypto/rsa: message too long for RSA key size")}
		}
		ct := rsaTag(len(key), "encrypt", scheme, key, fmt.Sprint(len(in.rsaCiphers)))
		in.rsaCiphers = append(in.rsaCiphers, rsaCipher{key, scheme, ct, plain})
		return Tuple{in.constBytes(ct), (*Iface)(nil)}
	}
	decrypt := func(in *Interp, keyv Value, scheme string, ct *SliceV) Value {
		key := in.rsaKey(keyv)
		for _, c := range in.rsaCiphers {
			if c.key == key && c.scheme == scheme && in.branch(in.bytesEq(ct, in.constBytes(c.ct))) {
				return Tuple{in.mkBytes(c.plain), (*Iface)(nil)}
			}
		}
		return Tuple{in.nilSlice, in.mkError("crypto/rsa: decryption error")}
	}
	oaepOver := func(v Value) int {
		if n := hashName(v); n != "" && strings.Contains(strings.ToLower(n), "sha256") {
			return 66
		}
		return 42
	}
	reg("crypto/rsa.EncryptOAEP", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return encrypt(in, a[2], "oaep "+hashName(a[0]), oaepOver(a[0]), a[3].(*SliceV))
	})
	reg("crypto/rsa.DecryptOAEP", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return decrypt(in, a[2], "oaep "+hashName(a[0]), a[3].(*SliceV))
	})
	reg("crypto/rsa.EncryptPKCS1v15", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return encrypt(in, a[1], "pkcs1", 11, a[2].(*SliceV))
	})
	reg("crypto/rsa.DecryptPKCS1v15", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return decrypt(in, a[1], "pkcs1", a[2].(*SliceV))
	})
}

// The assembly kernels of math/big run as their portable versions.
func init() {
	for _, n := range []string{"addVV", "subVV", "lshVU", "rshVU", "mulAddVWW", "addMulVVWW"} {
		n := n
		reg("math/big."+n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return in.callSync(&Closure{fn: fn.Pkg.Func(n + "_g")}, a)
		})
	}
}
