// Package wire is an implementation of the library's wire protocol which shares no code with it. It is the reference
// that real nodes are run against, and can deviate from the protocol at every step.
package wire

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"strconv"
	"sync"
	"time"
)

const HandshakeText = ".__noise_handshake"

// Overhead is how many bytes a record is larger than the message in it: nonce, message nonce and tag.
const Overhead = 12 + 8 + 16

var p25519, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)

// Montgomery converts an Edwards public key.
func Montgomery(pub []byte) []byte {
	be := make([]byte, 32)
	for i := range be {
		be[i] = pub[31-i]
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be)
	y.Mod(y, p25519)
	den := new(big.Int).Sub(big.NewInt(1), y)
	den.Mod(den, p25519)
	if den.Sign() == 0 {
		return make([]byte, 32)
	}
	den.ModInverse(den, p25519)
	u := new(big.Int).Add(y, big.NewInt(1))
	u.Mul(u, den).Mod(u, p25519)
	b := u.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// Shared is X25519 between converted keys.
func Shared(priv ed25519.PrivateKey, pub []byte) ([]byte, error) {
	h := sha512.Sum512(priv[:32])
	k, err := ecdh.X25519().NewPrivateKey(h[:32])
	if err != nil {
		return nil, err
	}
	q, err := ecdh.X25519().NewPublicKey(Montgomery(pub))
	if err != nil {
		return nil, err
	}
	return k.ECDH(q)
}

// Identity is a peer identity.
type Identity struct {
	Priv ed25519.PrivateKey
	Host net.IP
	Port uint16
}

// NewIdentity makes up an identity that claims to live at a port of this machine.
func NewIdentity(port uint16) *Identity {
	_, priv, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	return &Identity{Priv: priv, Host: net.IPv4(127, 0, 0, 1), Port: port}
}

// Pub is the public key.
func (id *Identity) Pub() [32]byte {
	var k [32]byte
	copy(k[:], id.Priv.Public().(ed25519.PublicKey))
	return k
}

// EncodeID encodes an identity.
func EncodeID(pub []byte, host net.IP, port uint16) []byte {
	b := make([]byte, 50)
	copy(b, pub)
	copy(b[32:], host.To16())
	binary.BigEndian.PutUint16(b[48:], port)
	return b
}

// Marshal encodes the identity.
func (id *Identity) Marshal() []byte {
	k := id.Pub()
	return EncodeID(k[:], id.Host, id.Port)
}

// ID is a decoded identity.
type ID struct {
	Pub  [32]byte
	Host net.IP
	Port uint16
}

// DecodeID decodes an identity.
func DecodeID(b []byte) (ID, error) {
	var id ID
	if len(b) < 50 {
		return id, io.ErrUnexpectedEOF
	}
	copy(id.Pub[:], b)
	id.Host = append(net.IP{}, b[32:48]...)
	id.Port = binary.BigEndian.Uint16(b[48:])
	return id, nil
}

// Addr is how an identity's address is written.
func (id ID) Addr() string {
	h := ""
	if !id.Host.IsLoopback() && !id.Host.IsUnspecified() {
		h = id.Host.String()
	}
	return net.JoinHostPort(h, strconv.Itoa(int(id.Port)))
}

// ReadFrame reads one frame.
func ReadFrame(r io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 256<<20 {
		return nil, fmt.Errorf("frame of %d bytes", n)
	}
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return b, err
}

// Frame frames b.
func Frame(b []byte) []byte {
	f := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	copy(f[4:], b)
	return f
}

// Msg is a message of an established connection.
type Msg struct {
	Nonce uint64
	Data  []byte
}

// Conn is one side of a connection.
type Conn struct {
	net.Conn
	wmu          sync.Mutex
	Shared       []byte
	AEAD         cipher.AEAD
	Self         *Identity
	EphPub       [32]byte // ours
	PeerHelloSig []byte
	Peer         struct {
		Eph      [32]byte
		ID       ID
		IDRecord []byte // as sent, decrypted
		RawID    []byte // as sent
	}
}

// Options make a peer deviate from the handshake. Each hook may be nil, and may return nil to send nothing.
type Options struct {
	Eph      func() (ed25519.PrivateKey, []byte) // key, and the public key announced (nil: that of key)
	Hello    func(c *Conn, b []byte) []byte      // plaintext of the first frame; the result is sent raw if it is framed by the hook itself
	ReadPeer bool                                // read the peer's hello before sending ours
	IDBody   func(c *Conn, b []byte) []byte      // id || signature, before encryption
	IDRecord func(c *Conn, rec []byte) []byte    // after encryption
	Stop     int                                 // stop after this many of our own steps (1: hello sent, 2: hello read, 3: id sent, 4: id read)
	NoRead   bool                                // never read the peer's id record
	Timeout  time.Duration
}

// Steps of a handshake that was cut short.
var ErrStopped = errors.New("stopped as configured")

// Handshake performs the handshake on nc as id.
func Handshake(nc net.Conn, id *Identity, o *Options) (*Conn, error) {
	if o == nil {
		o = &Options{}
	}
	c := &Conn{Conn: nc, Self: id}
	if o.Timeout > 0 {
		nc.SetDeadline(time.Now().Add(o.Timeout))
		defer nc.SetDeadline(time.Time{})
	}
	var eph ed25519.PrivateKey
	var announced []byte
	if o.Eph != nil {
		eph, announced = o.Eph()
	}
	if eph == nil {
		_, eph, _ = ed25519.GenerateKey(rand.Reader)
	}
	if announced == nil {
		announced = eph.Public().(ed25519.PublicKey)
	}
	copy(c.EphPub[:], announced)
	if o.ReadPeer {
		if err := c.readHello(); err != nil {
			return c, err
		}
	}
	hello := append(append([]byte{}, announced...), ed25519.Sign(eph, []byte(HandshakeText))...)
	if o.Hello != nil {
		hello = o.Hello(c, hello)
	}
	if hello != nil {
		if _, err := nc.Write(Frame(hello)); err != nil {
			return c, err
		}
	}
	if o.Stop == 1 {
		return c, ErrStopped
	}
	if !o.ReadPeer {
		if err := c.readHello(); err != nil {
			return c, err
		}
	}
	if o.Stop == 2 {
		return c, ErrStopped
	}
	shared, err := Shared(eph, c.Peer.Eph[:])
	if err != nil {
		return c, err
	}
	if err := c.Key(shared); err != nil {
		return c, err
	}
	body := id.Marshal()
	body = append(body, ed25519.Sign(id.Priv, append(append([]byte{}, body...), shared...))...)
	if o.IDBody != nil {
		body = o.IDBody(c, body)
	}
	if body != nil {
		rec := c.Seal(body)
		if o.IDRecord != nil {
			rec = o.IDRecord(c, rec)
		}
		if rec != nil {
			if _, err := nc.Write(Frame(rec)); err != nil {
				return c, err
			}
		}
	}
	if o.Stop == 3 || o.NoRead {
		return c, ErrStopped
	}
	if err := c.ReadID(); err != nil {
		return c, err
	}
	return c, nil
}

// Key sets the secret of the connection.
func (c *Conn) Key(shared []byte) error {
	c.Shared = shared
	block, err := aes.NewCipher(shared)
	if err != nil {
		return err
	}
	c.AEAD, err = cipher.NewGCM(block)
	return err
}

func (c *Conn) readHello() error {
	b, err := ReadFrame(c)
	if err != nil {
		return err
	}
	if len(b) != 96 {
		return fmt.Errorf("hello of %d bytes", len(b))
	}
	copy(c.Peer.Eph[:], b)
	c.PeerHelloSig = append([]byte{}, b[32:]...)
	if !ed25519.Verify(b[:32], []byte(HandshakeText), b[32:]) {
		return errors.New("bad hello signature")
	}
	return nil
}

// ReadID reads and verifies the peer's identity record.
func (c *Conn) ReadID() error {
	raw, err := ReadFrame(c)
	if err != nil {
		return err
	}
	c.Peer.RawID = raw
	b, err := c.Open(raw)
	if err != nil {
		return err
	}
	c.Peer.IDRecord = b
	if len(b) != 50+64 {
		return fmt.Errorf("identity record of %d bytes", len(b))
	}
	if c.Peer.ID, err = DecodeID(b); err != nil {
		return err
	}
	if !ed25519.Verify(b[:32], append(append([]byte{}, b[:50]...), c.Shared...), b[50:]) {
		return errors.New("bad identity signature")
	}
	return nil
}

// Seal encrypts b into a record.
func (c *Conn) Seal(b []byte) []byte {
	nonce := make([]byte, 12)
	rand.Read(nonce)
	return c.AEAD.Seal(nonce, nonce, b, nil)
}

// Open decrypts a record.
func (c *Conn) Open(rec []byte) ([]byte, error) {
	if len(rec) < 12 {
		return nil, io.ErrUnexpectedEOF
	}
	return c.AEAD.Open(nil, rec[:12], rec[12:], nil)
}

// Encode encodes a message.
func Encode(m Msg) []byte {
	b := make([]byte, 8+len(m.Data))
	binary.BigEndian.PutUint64(b, m.Nonce)
	copy(b[8:], m.Data)
	return b
}

// Send sends one message.
func (c *Conn) Send(m Msg) error {
	return c.WriteRecord(c.Seal(Encode(m)))
}

// WriteRecord writes a record as it is.
func (c *Conn) WriteRecord(rec []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	_, err := c.Write(Frame(rec))
	return err
}

// Recv receives one message.
func (c *Conn) Recv() (Msg, error) {
	rec, err := ReadFrame(c)
	if err != nil {
		return Msg{}, err
	}
	b, err := c.Open(rec)
	if err != nil {
		return Msg{}, err
	}
	if len(b) < 8 {
		return Msg{}, io.ErrUnexpectedEOF
	}
	return Msg{binary.BigEndian.Uint64(b), b[8:]}, nil
}

// Call sends a request and waits for the response to it, passing other messages to other.
func (c *Conn) Call(nonce uint64, data []byte, other func(Msg)) ([]byte, error) {
	if err := c.Send(Msg{nonce, data}); err != nil {
		return nil, err
	}
	for {
		m, err := c.Recv()
		if err != nil {
			return nil, err
		}
		if m.Nonce == nonce {
			return m.Data, nil
		}
		if other != nil {
			other(m)
		}
	}
}

// Dial connects to a node and performs the handshake.
func Dial(addr string, id *Identity, o *Options) (*Conn, error) {
	nc, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	c, err := Handshake(nc, id, o)
	if err != nil && err != ErrStopped {
		nc.Close()
	}
	return c, err
}
