package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	_ "crypto/sha256"
	"encoding/gob"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/pgp"
)

// ---- OpenPGP keys made by hand, as they are found in dumps

type genID struct {
	name, comment, email string
	bare                 bool // the identity is an address without brackets
	primary              bool
	signedAfter          time.Duration
	others               int // signatures by other keys
}

func (i genID) id() string {
	if i.bare {
		return i.email
	}
	s := i.name
	if i.comment != "" {
		s += " (" + i.comment + ")"
	}
	if i.email != "" {
		if s != "" {
			s += " "
		}
		s += "<" + i.email + ">"
	}
	return s
}

type genKey struct {
	ids     []genID
	created time.Time
	algo    packet.PublicKeyAlgorithm
	revoked bool
	subkeys int
	expires uint32 // seconds after it was made
	pieces  int    // of other things: pictures, the notes of a key ring

	dump []byte // as in a dump
	bare []byte // without revocation and subkeys, as it is ingested
	fpr  [20]byte
	bits uint16
}

// email is the address the key has to be found under, if any.
func (k *genKey) email() string {
	best := -1
	better := func(a, b genID) bool { // a rather than b
		if a.signedAfter != b.signedAfter {
			return a.signedAfter > b.signedAfter
		}
		return a.id() < b.id()
	}
	for pass := 0; pass < 2 && best < 0; pass++ {
		for i, id := range k.ids {
			if pass == 0 && !id.primary {
				continue
			}
			if best < 0 || better(id, k.ids[best]) {
				best = i
			}
		}
	}
	if best >= 0 && k.ids[best].email != "" && !k.ids[best].bare {
		return strings.ToLower(k.ids[best].email)
	}
	e := ""
	for _, id := range k.ids {
		if id.email != "" && !id.bare && (e == "" || id.email < e) {
			e = id.email
		}
	}
	return strings.ToLower(e)
}

var rsaPool struct {
	once sync.Once
	keys []*rsa.PrivateKey
}

func rsaKeys() []*rsa.PrivateKey {
	rsaPool.once.Do(func() {
		r := rand.New(rand.NewSource(42))
		e := big.NewInt(65537)
		prime := func() *big.Int {
			for {
				b := make([]byte, 64)
				r.Read(b)
				b[0] |= 0xc0
				b[63] |= 1
				p := new(big.Int).SetBytes(b)
				if !p.ProbablyPrime(20) {
					continue
				}
				if new(big.Int).Mod(new(big.Int).Sub(p, big.NewInt(1)), e).Sign() != 0 {
					return p
				}
			}
		}
		for len(rsaPool.keys) < 4 {
			p, q := prime(), prime()
			one := big.NewInt(1)
			phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
			k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: 65537},
				D: new(big.Int).ModInverse(e, phi), Primes: []*big.Int{p, q}}
			k.Precompute()
			rsaPool.keys = append(rsaPool.keys, k)
		}
	})
	return rsaPool.keys
}

var dsaPool struct {
	once   sync.Once
	params dsa.Parameters
}

func newSigner(r *rand.Rand, algo packet.PublicKeyAlgorithm, created time.Time) *packet.PrivateKey {
	switch algo {
	case packet.PubKeyAlgoECDSA:
		c := elliptic.P256()
		d := make([]byte, 32)
		r.Read(d)
		d[0] &= 0x7f
		k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(d)}
		k.Curve = c
		k.X, k.Y = c.ScalarBaseMult(d)
		return packet.NewECDSAPrivateKey(created, k)
	case packet.PubKeyAlgoDSA:
		dsaPool.once.Do(func() {
			if err := dsa.GenerateParameters(&dsaPool.params, detReader{rand.New(rand.NewSource(7))}, dsa.L1024N160); err != nil {
				panic(err)
			}
		})
		k := &dsa.PrivateKey{}
		k.Parameters = dsaPool.params
		if err := dsa.GenerateKey(k, detReader{r}); err != nil {
			panic(err)
		}
		return packet.NewDSAPrivateKey(created, k)
	}
	k := rsaKeys()
	p := packet.NewRSAPrivateKey(created, k[r.Intn(len(k))])
	if algo != packet.PubKeyAlgoRSA { // the other kinds of RSA keys have other fingerprints
		p.PublicKey.PubKeyAlgo = algo
		var b bytes.Buffer
		must(p.PublicKey.Serialize(&b))
		q, err := packet.Read(&b)
		must(err)
		p.PublicKey = *q.(*packet.PublicKey)
	}
	return p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// make builds the packets of the key.
func (k *genKey) make(r *rand.Rand) *genKey {
	if k.algo == 0 {
		k.algo = packet.PubKeyAlgoRSA
	}
	k.created = k.created.UTC().Truncate(time.Second)
	priv := newSigner(r, packet.PubKeyAlgoRSA, k.created)
	if k.algo != packet.PubKeyAlgoRSA {
		priv = newSigner(r, k.algo, k.created)
	}
	pub := &priv.PublicKey
	k.fpr = pub.Fingerprint
	k.bits, _ = pub.BitLength()
	cfg := &packet.Config{DefaultHash: crypto.SHA256}
	newSig := func(t packet.SignatureType, when time.Time, by *packet.PrivateKey) *packet.Signature {
		return &packet.Signature{SigType: t, PubKeyAlgo: by.PubKeyAlgo, Hash: crypto.SHA256, CreationTime: when, IssuerKeyId: &by.KeyId}
	}
	var head, rev, ids, subs, more bytes.Buffer
	must(pub.Serialize(&head))
	if k.revoked {
		var w bytes.Buffer
		must(pub.Serialize(&w))
		body := w.Bytes()
		h := crypto.SHA256.New()
		pub.SerializeSignaturePrefix(h)
		h.Write(body[packetHeader(body):])
		s := newSig(packet.SigTypeKeyRevocation, k.created.Add(time.Hour), priv)
		must(s.Sign(h, priv, cfg))
		must(s.Serialize(&rev))
	}
	for _, id := range k.ids {
		u := &packet.UserId{Id: id.id()}
		must(u.Serialize(&ids))
		s := newSig(packet.SigTypePositiveCert, k.created.Add(id.signedAfter), priv)
		if id.primary {
			t := true
			s.IsPrimaryId = &t
		}
		s.FlagsValid, s.FlagSign, s.FlagCertify = true, true, true
		if k.expires > 0 {
			s.KeyLifetimeSecs = &k.expires
		}
		must(s.SignUserId(u.Id, pub, priv, cfg))
		must(s.Serialize(&ids))
		for j := 0; j < id.others; j++ {
			by := newSigner(r, packet.PubKeyAlgoECDSA, k.created.Add(-time.Hour))
			s := newSig(packet.SigTypeGenericCert, k.created.Add(time.Hour), by)
			must(s.SignUserId(u.Id, pub, by, cfg))
			must(s.Serialize(&ids))
		}
	}
	for j := 0; j < k.pieces; j++ {
		b := make([]byte, 1+r.Intn(600))
		r.Read(b)
		if r.Intn(2) == 0 {
			must((&packet.OpaquePacket{Tag: 12, Contents: b}).Serialize(&more)) // trust
			continue
		}
		must((&packet.UserAttribute{Contents: []*packet.OpaqueSubpacket{{SubType: 1, Contents: b}}}).Serialize(&more))
		s := newSig(packet.SigTypePositiveCert, k.created.Add(time.Hour), priv)
		must(s.SignUserId(string(b), pub, priv, cfg))
		must(s.Serialize(&more))
	}
	for j := 0; j < k.subkeys; j++ {
		sub := newSigner(r, packet.PubKeyAlgoRSA, k.created.Add(time.Duration(j)*time.Second))
		sub.IsSubkey, sub.PublicKey.IsSubkey = true, true
		s := newSig(packet.SigTypeSubkeyBinding, k.created, priv)
		s.FlagsValid, s.FlagEncryptStorage = true, true
		must(s.SignKey(&sub.PublicKey, priv, cfg))
		must(sub.PublicKey.Serialize(&subs))
		must(s.Serialize(&subs))
	}
	k.dump = append(append([]byte{}, head.Bytes()...), rev.Bytes()...)
	k.dump = append(append(append(k.dump, ids.Bytes()...), more.Bytes()...), subs.Bytes()...)
	k.bare = append(append([]byte{}, head.Bytes()...), ids.Bytes()...)
	return k
}

// packetHeader is the length of the header of an OpenPGP packet in the new format.
func packetHeader(b []byte) int {
	if b[0]&0x40 == 0 {
		return 2 + []int{0, 1, 3}[b[0]&3]
	}
	switch l := b[1]; {
	case l < 192:
		return 2
	case l < 224:
		return 3
	}
	return 6
}

var words = []string{"alice", "bob", "carol", "dave", "erin", "frank", "grace", "heidi", "ivan", "judy"}

func genEmail(r *rand.Rand, n int) string {
	e := fmt.Sprintf("%s%d@%s.%s", words[r.Intn(len(words))], n, []string{"epfl", "example", "mail", "x"}[r.Intn(4)], []string{"ch", "org", "com", "edu"}[r.Intn(4)])
	switch r.Intn(40) {
	case 0:
		e = fmt.Sprintf("jürgen%d@bücher.example.ch", n)
	case 1:
		e = fmt.Sprintf("用户%d@例え.テスト", n)
	case 2:
		e = fmt.Sprintf("o'brien+tag_%d%%x@sub-domain.%s", n, strings.Repeat("long.", r.Intn(30))+"org")
	case 3:
		e = fmt.Sprintf("%s%d@localhost", strings.Repeat("a", 1+r.Intn(100)), n)
	case 4:
		e = fmt.Sprintf("Élise.%d@ÉCOLE.example.fr", n)
	}
	switch r.Intn(6) {
	case 0:
		if e[0] < 0x80 {
			e = strings.ToUpper(e[:1]) + e[1:]
		}
	case 1:
		e = strings.ToUpper(e)
	}
	return e
}

func genTime(r *rand.Rand) time.Time {
	return time.Unix(788918400+r.Int63n(1000000000), 0).UTC() // from 1995 on
}

// genKeys makes n keys with distinct addresses.
func genKeys(r *rand.Rand, n int) []*genKey {
	var out []*genKey
	algos := []packet.PublicKeyAlgorithm{packet.PubKeyAlgoRSA, packet.PubKeyAlgoRSA, packet.PubKeyAlgoECDSA, packet.PubKeyAlgoDSA}
	for i := 0; i < n; i++ {
		k := &genKey{created: genTime(r), algo: algos[r.Intn(len(algos))]}
		k.ids = []genID{{name: strings.Repeat("n", r.Intn(40)), email: genEmail(r, i), primary: r.Intn(2) == 0}}
		// signed again later
		if later := time.Duration(r.Intn(5)*r.Intn(1000)*r.Intn(3)) * 24 * time.Hour; k.created.Add(later).Unix() < 1735689600 {
			k.ids[0].signedAfter = later
		}
		if r.Intn(4) == 0 {
			k.ids = append(k.ids, genID{name: "other", email: "zz." + genEmail(r, i), signedAfter: -time.Hour})
		}
		out = append(out, k.make(r))
	}
	return out
}

// writeKeyFiles writes the keys as the ingestion does, spread over some files.
func writeKeyFiles(dir string, keys []*genKey, files int) []string {
	must(os.MkdirAll(dir, 0o755))
	var names []string
	for f := 0; f < files; f++ {
		name := filepath.Join(dir, fmt.Sprintf("sks-%03d.pgp", f))
		out, err := os.Create(name)
		must(err)
		enc := gob.NewEncoder(out)
		for i := f; i < len(keys); i += files {
			must(enc.Encode(&pgp.Key{ID: keys[i].email(), Packet: keys[i].bare}))
		}
		must(out.Close())
		names = append(names, name)
	}
	return names
}
