package main

// Certificates for the TLS checks. They are made once per run by the parent
// process and shared by the shards.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"
)

var certDir string

// certPath and keyPath take a comma separated list of certificate names.
func certPath(n string) string { return certFiles(n, ".crt") }
func keyPath(n string) string  { return certFiles(n, ".key") }

func certFiles(n, ext string) string {
	var out []string
	for _, x := range strings.Split(n, ",") {
		out = append(out, filepath.Join(certDir, x+ext))
	}
	return strings.Join(out, ",")
}

// Server certificates sa, sb, sc (names sa.example ...); client certificates
// cgood (signed by the CA), cself (self-signed), cold (expired), cnocn (CA
// signed, no common name), cserv (CA signed, but for servers only), cchain
// (signed by an intermediate CA, which the client sends too), cbroken (the
// same without it), cextra (self-signed, sent with the CA's certificate).
func makeCerts(dir string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	serial := int64(1)
	cakey, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return err
	}
	base := time.Now()
	catmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "verif ca"},
		NotBefore: base.AddDate(-5, 0, 0), NotAfter: base.AddDate(20, 0, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign}
	var extra []byte // a further certificate for the file
	write := func(name string, der []byte, key *ecdsa.PrivateKey) error {
		kb, err := x509.MarshalECPrivateKey(key)
		if err != nil {
			return err
		}
		c := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		if extra != nil {
			c = append(c, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: extra})...)
		}
		k := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
		if err := os.WriteFile(filepath.Join(dir, name+".crt"), c, 0o644); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, name+".key"), k, 0o644)
	}
	der, err := x509.CreateCertificate(rand.Reader, catmpl, catmpl, &cakey.PublicKey, cakey)
	if err != nil {
		return err
	}
	if err := write("ca", der, cakey); err != nil {
		return err
	}
	caDER := der
	ikey, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return err
	}
	serial++
	itmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "verif intermediate"},
		NotBefore: base.AddDate(-5, 0, 0), NotAfter: base.AddDate(20, 0, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign}
	interDER, err := x509.CreateCertificate(rand.Reader, itmpl, catmpl, &ikey.PublicKey, cakey)
	if err != nil {
		return err
	}
	one := func(name, cn string, dns []string, server, self, old bool) error {
		serial++
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			return err
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, DNSNames: dns,
			NotBefore: base.AddDate(-4, 0, 0), NotAfter: base.AddDate(15, 0, 0), KeyUsage: x509.KeyUsageDigitalSignature,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
		if server {
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		}
		if old {
			t.NotAfter = base.AddDate(-1, 0, 0)
		}
		parent, pkey := catmpl, cakey
		if self {
			parent, pkey = t, key
		}
		if name == "cchain" || name == "cbroken" {
			parent, pkey = itmpl, ikey
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pkey)
		if err != nil {
			return err
		}
		switch name {
		case "cchain":
			extra = interDER
		case "cextra":
			extra = caDER
		}
		err = write(name, der, key)
		extra = nil
		return err
	}
	for _, s := range []string{"sa", "sb", "sc"} {
		if err := one(s, s+".example", []string{s + ".example"}, true, true, false); err != nil {
			return err
		}
	}
	for _, c := range []struct {
		n, cn          string
		dns            []string
		srv, self, old bool
	}{
		{"cgood", "good.client", nil, false, false, false},
		{"cself", "self.client", nil, false, true, false},
		{"cold", "old.client", nil, false, false, true},
		{"cnocn", "", []string{"alt.client", "alt2.client"}, false, false, false},
		{"cserv", "serv.client", nil, true, false, false},
		{"cchain", "chain.client", nil, false, false, false},
		{"cbroken", "broken.client", nil, false, false, false},
		{"cextra", "extra.client", nil, false, true, false},
		{"cone", "", []string{"only.client"}, false, false, false},
		{"cnone", "", nil, false, false, false},
		{"ctwo", "two.client", []string{"first.client", "two.client"}, false, false, false},
	} {
		if err := one(c.n, c.cn, c.dns, c.srv, c.self, c.old); err != nil {
			return err
		}
	}
	return nil
}

var clientCertName = map[string]string{"cgood": "good.client", "cself": "self.client", "cold": "old.client",
	"cnocn": "alt.client", "cserv": "serv.client", "cchain": "chain.client", "cbroken": "broken.client", "cextra": "extra.client",
	"cone": "only.client", "cnone": "<no CN or DNS Names>", "ctwo": "two.client"}
var clientCertOK = map[string]bool{"cgood": true, "cnocn": true, "cchain": true, "cone": true, "cnone": true, "ctwo": true}

var certCache = map[string]tls.Certificate{}

func loadPair(n string) (tls.Certificate, error) {
	if c, ok := certCache[n]; ok {
		return c, nil
	}
	c, err := tls.LoadX509KeyPair(certPath(n), keyPath(n))
	if err == nil {
		certCache[n] = c
	}
	return c, err
}
