package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
)

// fake is a server of the harness: it speaks the protocol, records what it is
// asked and says what the test wants.
type fake struct {
	proto.UnimplementedVPIRServer
	addr string

	mu      sync.Mutex
	info    *proto.DatabaseInfoResponse
	infoErr error
	delay   time.Duration // of the descriptions
	late    time.Duration // of the answers
	answer  func(q []byte) ([]byte, error)
	forged  func(a []byte) []byte // applied to the answers
	behind  proto.VPIRClient      // a real server that it stands in front of

	infos   int
	queries [][]byte
	answers [][]byte
}

func (f *fake) DatabaseInfo(ctx context.Context, r *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	f.mu.Lock()
	f.infos++
	i, e, d, b := f.info, f.infoErr, f.delay, f.behind
	f.mu.Unlock()
	time.Sleep(d)
	if b != nil {
		return b.DatabaseInfo(ctx, r, rpcOptions...)
	}
	if e != nil {
		return nil, e
	}
	return &proto.DatabaseInfoResponse{NumRows: i.NumRows, NumColumns: i.NumColumns, BlockLength: i.BlockLength, PirType: i.PirType,
		Root: append([]byte(nil), i.Root...), ProofLen: i.ProofLen}, nil
}

func (f *fake) Query(ctx context.Context, r *proto.QueryRequest) (*proto.QueryResponse, error) {
	f.mu.Lock()
	f.queries = append(f.queries, append([]byte{}, r.GetQuery()...))
	answer, forged, late := f.answer, f.forged, f.late
	if b := f.behind; b != nil {
		answer = func(q []byte) ([]byte, error) {
			a, err := b.Query(ctx, r, rpcOptions...)
			return a.GetAnswer(), err
		}
	}
	f.mu.Unlock()
	time.Sleep(late)
	if answer == nil {
		return nil, status.Error(3, "no model")
	}
	a, err := answer(r.GetQuery())
	if err != nil {
		return nil, err
	}
	a = append([]byte{}, a...)
	if forged != nil {
		a = forged(a)
	}
	f.mu.Lock()
	f.answers = append(f.answers, a)
	f.mu.Unlock()
	return &proto.QueryResponse{Answer: a}, nil
}

// counts returns how often it was asked for its description and queried.
func (f *fake) counts() (int, int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.infos, len(f.queries)
}

func (f *fake) set(g func(f *fake)) {
	f.mu.Lock()
	defer f.mu.Unlock()
	g(f)
}

func (f *fake) reset() {
	f.set(func(f *fake) { f.infos, f.queries, f.answers = 0, nil, nil })
}

// describe is the description of a database on the wire.
func describe(i *database.Info) *proto.DatabaseInfoResponse {
	r := &proto.DatabaseInfoResponse{NumRows: uint32(i.NumRows), NumColumns: uint32(i.NumColumns), BlockLength: uint32(i.BlockSize), PirType: i.PIRType}
	if i.Merkle != nil {
		r.Root, r.ProofLen = i.Root, uint32(i.ProofLen)
	}
	return r
}

// described is what a client has to make of it.
func described(r *proto.DatabaseInfoResponse) database.Info {
	return database.Info{NumRows: int(r.NumRows), NumColumns: int(r.NumColumns), BlockSize: int(r.BlockLength), PIRType: r.PirType,
		Merkle: &database.Merkle{Root: r.Root, ProofLen: int(r.ProofLen)}}
}

// modelAnswer answers with a server object of the repository.
func modelAnswer(s server.Server) func(q []byte) ([]byte, error) {
	var mu sync.Mutex
	return func(q []byte) ([]byte, error) {
		mu.Lock()
		defer mu.Unlock()
		return s.AnswerBytes(q)
	}
}

// startFake starts a server with a certificate; without one it does not use
// TLS at all.
func startFake(c *C, f *fake, cert *tls.Certificate) *fake {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f.addr = l.Addr().String()
	opts := []grpc.ServerOption{grpc.MaxRecvMsgSize(1 << 30), grpc.MaxSendMsgSize(1 << 30)}
	if cert != nil {
		opts = append(opts, grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{*cert}})))
	}
	s := grpc.NewServer(opts...)
	proto.RegisterVPIRServer(s, f)
	go s.Serve(l)
	c.Defer(s.Stop)
	return f
}

// writeConfig writes the configuration for servers at the given addresses.
func writeConfig(c *C, addrs []string) string {
	var l []cfgServer
	for i, a := range addrs {
		host, port, err := net.SplitHostPort(a)
		must(err)
		var p int
		fmt.Sscan(port, &p)
		l = append(l, cfgServer{fmt.Sprint(i), host, p})
	}
	path := filepath.Join(scratch(c), "config.toml")
	must(os.WriteFile(path, []byte(cfgText(c, l, c.R.Intn(12))), 0o644))
	return path
}

// pinned is one of the certificates the clients trust.
func pinned(i int) *x509.Certificate {
	b, _ := pem.Decode([]byte(utils.ServerPublicKeys[i]))
	cert, err := x509.ParseCertificate(b.Bytes)
	must(err)
	return cert
}

// authorityDir has the certificate and key of an authority that the system is
// told to trust: SSL_CERT_FILE of this process and of those it starts.
var authorityDir string

func trustAuthority(root string) {
	authorityDir = filepath.Join(root, "harness", "authority")
	os.Setenv("SSL_CERT_FILE", filepath.Join(authorityDir, "ca.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(authorityDir, "none"))
}

// impostor makes a certificate that nobody pinned.
func impostor(kind string, i int) *tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	p := pinned(i)
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()),
		Subject:      pkix.Name{CommonName: "127.0.0.1"},
		NotBefore:    time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, DNSNames: []string{"127.0.0.1", "localhost"},
		BasicConstraintsValid: true, IsCA: true,
	}
	parent, chain := tmpl, [][]byte{}
	switch kind {
	case "own certificate":
	case "copied names":
		tmpl.SerialNumber, tmpl.Subject, tmpl.SubjectKeyId, tmpl.AuthorityKeyId = p.SerialNumber, p.Subject, p.SubjectKeyId, p.AuthorityKeyId
		tmpl.NotBefore, tmpl.NotAfter = p.NotBefore, p.NotAfter
	case "pinned issuer":
		// claims to be issued by a pinned certificate, which it sends along
		parent = &x509.Certificate{Subject: p.Subject, SubjectKeyId: p.SubjectKeyId, RawSubject: p.RawSubject}
		chain = append(chain, p.Raw)
	case "pinned appended":
		chain = append(chain, p.Raw)
	case "another authority":
		ck, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		ca := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: p.Subject, NotBefore: tmpl.NotBefore, NotAfter: tmpl.NotAfter,
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		caDER, err := x509.CreateCertificate(crand.Reader, ca, ca, &ck.PublicKey, ck)
		must(err)
		tmpl.IsCA, tmpl.KeyUsage = false, x509.KeyUsageDigitalSignature
		der, err := x509.CreateCertificate(crand.Reader, tmpl, ca, &key.PublicKey, ck)
		must(err)
		return &tls.Certificate{Certificate: [][]byte{der, caDER}, PrivateKey: key}
	case "authority of the system":
		// issued by an authority that the system trusts (see main)
		ca, err := tls.LoadX509KeyPair(filepath.Join(authorityDir, "ca.pem"), filepath.Join(authorityDir, "key.pem"))
		must(err)
		cert, err := x509.ParseCertificate(ca.Certificate[0])
		must(err)
		tmpl.IsCA, tmpl.KeyUsage = false, x509.KeyUsageDigitalSignature
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(1000*time.Hour)
		der, err := x509.CreateCertificate(crand.Reader, tmpl, cert, &key.PublicKey, ca.PrivateKey)
		must(err)
		return &tls.Certificate{Certificate: [][]byte{der, ca.Certificate[0]}, PrivateKey: key}
	default:
		panic(kind)
	}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, parent, &key.PublicKey, key)
	must(err)
	return &tls.Certificate{Certificate: append([][]byte{der}, chain...), PrivateKey: key}
}

// dial connects to a server with a pinned certificate.
func dial(c *C, addr string) proto.VPIRClient {
	creds, err := utils.LoadServersCertificates()
	c.Must(err, "certificates")
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, addr, grpc.WithTransportCredentials(creds), grpc.WithBlock())
	if err != nil {
		c.Failf("no connection to the server at %s: %v", addr, err)
	}
	c.Defer(func() { conn.Close() })
	return proto.NewVPIRClient(conn)
}

// recorders stand in front of real servers.
func recorders(c *C, addrs []string) []*fake {
	var out []*fake
	for i, a := range addrs {
		out = append(out, startFake(c, &fake{behind: dial(c, a)}, &utils.ServerCertificates[i%len(utils.ServerCertificates)]))
	}
	return out
}
