package main

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"time"
)

// Certificates made once per process from fixed keys.
var certs struct {
	pool                  *x509.CertPool
	server, client, rogue tls.Certificate // rogue is signed by nobody we trust
	old                   tls.Certificate // expired
	other                 tls.Certificate // for another name
}

func fixedKey(b byte) ed25519.PrivateKey {
	return ed25519.NewKeyFromSeed(bytes.Repeat([]byte{b}, ed25519.SeedSize))
}

func initCerts() {
	from := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC)
	to := time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "sim ca"}, NotBefore: from, NotAfter: to,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	cak := fixedKey(1)
	mk := func(n int64, cn string, key ed25519.PrivateKey, parent *x509.Certificate, pk ed25519.PrivateKey, to time.Time) tls.Certificate {
		t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: cn}, NotBefore: from, NotAfter: to,
			DNSNames: []string{map[bool]string{true: "other.node", false: "sim.node"}[cn == "other"]}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, KeyUsage: x509.KeyUsageDigitalSignature}
		if parent == nil {
			parent, pk = t, key
		}
		der, err := x509.CreateCertificate(crand.Reader, t, parent, key.Public(), pk)
		if err != nil {
			panic(err)
		}
		leaf, _ := x509.ParseCertificate(der)
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}
	}
	der, err := x509.CreateCertificate(crand.Reader, ca, ca, cak.Public(), cak)
	if err != nil {
		panic(err)
	}
	cac, _ := x509.ParseCertificate(der)
	certs.pool = x509.NewCertPool()
	certs.pool.AddCert(cac)
	certs.server = mk(2, "server", fixedKey(2), cac, cak, to)
	certs.client = mk(3, "client", fixedKey(3), cac, cak, to)
	certs.rogue = mk(4, "rogue", fixedKey(4), nil, nil, to)
	certs.other = mk(6, "other", fixedKey(6), cac, cak, to)
	certs.old = mk(5, "old", fixedKey(5), cac, cak, time.Date(1995, 1, 1, 0, 0, 0, 0, time.UTC))
}
