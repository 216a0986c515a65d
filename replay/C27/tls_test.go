// pkg: cmd/vanflow-tool
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"testing"
	"time"
)

// main.go's init parses os.Args: hide the test flags from it.
var verifArgs = func() []string {
	a := os.Args
	os.Args = os.Args[:1]
	return a
}()

func init() { os.Args = verifArgs }

func verifPair(t *testing.T) (cert, key []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
}

func TestVerifC27Parse(t *testing.T) {
	dir := t.TempDir()
	cert, key := verifPair(t)
	cert2, _ := verifPair(t)
	n := 0
	put := func(b []byte) string {
		n++
		p := filepath.Join(dir, fmt.Sprint("f", n))
		if b == nil {
			return p
		}
		if err := os.WriteFile(p, b, 0o600); err != nil {
			t.Fatal(err)
		}
		return p
	}
	type file struct {
		name string
		b    []byte
	}
	wantPool := x509.NewCertPool()
	wantPool.AppendCertsFromPEM(cert2)
	for _, ca := range []file{{"missing", nil}, {"good", cert2}} {
		for _, cf := range []file{{"missing", nil}, {"good", cert}, {"garbage", []byte("x")}, {"other", cert2}} {
			for _, kf := range []file{{"missing", nil}, {"good", key}, {"garbage", []byte("x")}} {
				for _, verify := range []bool{true, false} {
					c := tlsConfig{CA: put(ca.b), Cert: put(cf.b), Key: put(kf.b), Verify: verify}
					wantErr := verify && ca.b == nil
					client := cf.b != nil || kf.b != nil
					if client && !(cf.name == "good" && kf.name == "good") {
						wantErr = true
					}
					got, err := c.Parse()
					id := fmt.Sprintf("ca=%s cert=%s key=%s verify=%v", ca.name, cf.name, kf.name, verify)
					if (err != nil) != wantErr {
						t.Errorf("%s: error %v, want error %v", id, err, wantErr)
						continue
					}
					if err != nil {
						continue
					}
					if got.InsecureSkipVerify != !verify {
						t.Errorf("%s: InsecureSkipVerify %v", id, got.InsecureSkipVerify)
					}
					if verify && (got.RootCAs == nil || !got.RootCAs.Equal(wantPool)) {
						t.Errorf("%s: not verified against the configured CA", id)
					}
					if (len(got.Certificates) == 1) != client {
						t.Errorf("%s: %d client certificates", id, len(got.Certificates))
					}
				}
			}
		}
	}
	_ = tls.VersionTLS12
}

func TestVerifC27Flags(t *testing.T) {
	if f := flags.Lookup("tls-verify"); f == nil || f.DefValue != "true" {
		t.Errorf("verification is not the default")
	}
	for name, p := range map[string]*string{"ca": &TLSCACert, "cert": &TLSCert, "key": &TLSKey} {
		if *p != "" {
			t.Errorf("%s has a default", name)
		}
		flags.Set(name, "v-"+name)
		if *p != "v-"+name {
			t.Errorf("flag %s is not bound to its setting", name)
		}
	}
	flags.Set("tls-verify", "false")
	if TLSVerify {
		t.Errorf("tls-verify=false ignored")
	}
}
