package server

import (
	"crypto/rsa"
	"errors"
	"hash"
	"io"
	"net"
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
	"github.com/djherbis/buffer"
)

// ---- a connection that delivers prepared bytes (at most frag per read) and records what is written ----

type vpAddr struct{}

func (vpAddr) Network() string { return "vp" }
func (vpAddr) String() string  { return "vp" }

type vpConn struct {
	in     []byte
	frag   int
	out    [][]byte
	closed bool
}

func (c *vpConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 || c.closed {
		return 0, io.EOF
	}
	n := len(p)
	if c.frag > 0 && n > c.frag {
		n = c.frag
	}
	n = copy(p[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *vpConn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, errors.New("closed")
	}
	c.out = append(c.out, append([]byte(nil), p...))
	return len(p), nil
}
func (c *vpConn) Close() error                     { c.closed = true; return nil }
func (c *vpConn) LocalAddr() net.Addr              { return vpAddr{} }
func (c *vpConn) RemoteAddr() net.Addr             { return vpAddr{} }
func (c *vpConn) SetDeadline(time.Time) error      { return nil }
func (c *vpConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vpConn) SetWriteDeadline(time.Time) error { return nil }

// ---- an ideal security policy ----

type vpPolicy struct {
	sig, block int
	factory    func(key []byte) hash.Hash
}

func (p *vpPolicy) PolicyURI() string                                          { return "vp" }
func (p *vpPolicy) RSASign(*rsa.PrivateKey, []byte) ([]byte, error)            { return nil, nil }
func (p *vpPolicy) RSAVerify(*rsa.PublicKey, []byte, []byte) error             { return nil }
func (p *vpPolicy) RSAEncrypt(k *rsa.PublicKey, b []byte) ([]byte, error)      { return b, nil }
func (p *vpPolicy) RSADecrypt(k *rsa.PrivateKey, b []byte) ([]byte, error)     { return b, nil }
func (p *vpPolicy) SymHMACFactory(key []byte) hash.Hash                        { return p.factory(key) }
func (p *vpPolicy) RSAPaddingSize() int                                        { return 0 }
func (p *vpPolicy) SymSignatureSize() int                                      { return p.sig }
func (p *vpPolicy) SymSignatureKeySize() int                                   { return 4 }
func (p *vpPolicy) SymEncryptionBlockSize() int                                { return p.block }
func (p *vpPolicy) SymEncryptionKeySize() int                                  { return 16 }
func (p *vpPolicy) NonceSize() int                                             { return 4 }

// vpSigner is an ideal MAC on the sending side: every message signed gets a fresh arbitrary tag and is remembered.
type vpSigner struct {
	size int
	data []byte
	msgs [][]byte
	tags [][]byte
}

func (s *vpSigner) Write(p []byte) (int, error) { s.data = append(s.data, p...); return len(p), nil }
func (s *vpSigner) Reset()                      { s.data = nil }
func (s *vpSigner) Size() int                   { return s.size }
func (s *vpSigner) BlockSize() int              { return 64 }
func (s *vpSigner) Sum(b []byte) []byte {
	tag := vp.Bytes("tag", s.size)
	s.msgs = append(s.msgs, append([]byte(nil), s.data...))
	s.tags = append(s.tags, tag)
	return append(b, tag...)
}

// vpVerifier is an ideal MAC on the receiving side: the tags of the genuine messages are arbitrary, any other message has a tag the attacker cannot know.
type vpVerifier struct {
	size  int
	data  []byte
	msgs  [][]byte
	tags  [][]byte
	calls int
}

func (s *vpVerifier) Write(p []byte) (int, error) { s.data = append(s.data, p...); return len(p), nil }
func (s *vpVerifier) Reset()                      { s.data = nil }
func (s *vpVerifier) Size() int                   { return s.size }
func (s *vpVerifier) BlockSize() int              { return 64 }
func (s *vpVerifier) Sum(b []byte) []byte {
	s.calls++
	for i, m := range s.msgs {
		if len(m) == len(s.data) && vp.EqBytes(m, s.data) {
			return append(b, s.tags[i]...)
		}
	}
	// a tag of another size compares equal to nothing
	return append(b, make([]byte, s.size+1)...)
}

// vpCipher is a block cipher (xor with an arbitrary key).
type vpCipher struct{ key []byte }

func (c *vpCipher) BlockSize() int { return len(c.key) }
func (c *vpCipher) Encrypt(dst, src []byte) {
	for i, k := range c.key {
		dst[i] = src[i] ^ k
	}
}
func (c *vpCipher) Decrypt(dst, src []byte) { c.Encrypt(dst, src) }

// vpCBCDecrypt, vpCBCEncrypt: reference CBC.
func vpCBCDecrypt(key, iv, b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		p := iv[i%len(key)]
		if i >= len(key) {
			p = b[i-len(key)]
		}
		out[i] = b[i] ^ key[i%len(key)] ^ p
	}
	return out
}
func vpCBCEncrypt(key, iv, b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		p := iv[i%len(key)]
		if i >= len(key) {
			p = out[i-len(key)]
		}
		out[i] = b[i] ^ key[i%len(key)] ^ p
	}
	return out
}

func vpLE32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func vpPut32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

// vpChannel is an open channel of the given mode over conn with the given buffer sizes.
func vpChannel(conn net.Conn, mode ua.MessageSecurityMode, sendSize, recvSize uint32) *serverSecureChannel {
	srv := &Server{maxBufferSize: 64}
	ch := &serverSecureChannel{
		srv: srv, conn: conn, securityMode: mode,
		sendBufferSize: sendSize, receiveBufferSize: recvSize,
		sendBuffer: make([]byte, sendSize), receiveBuffer: make([]byte, recvSize), encryptionBuffer: make([]byte, sendSize),
		securityPolicyURI: ua.SecurityPolicyURINone, securityPolicy: new(ua.SecurityPolicyNone),
		bufferPool: buffer.NewMemPoolAt(64),
	}
	ch.bytesPool.New = func() any { s := make([]byte, 64); return &s }
	srv.namespaceManager = NewNamespaceManager(srv)
	return ch
}

// vpModes: None, Sign, SignAndEncrypt
func vpMode(name string) ua.MessageSecurityMode {
	return []ua.MessageSecurityMode{ua.MessageSecurityModeNone, ua.MessageSecurityModeSign, ua.MessageSecurityModeSignAndEncrypt}[vp.Choice(name, 3)]
}
