package main

// Tells what the files of a set-up hold, independently of the code under test;
// answers requests on the standard input.

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/coniks-sys/coniks-go/application/bots"
)

func init() { suites["inspect"] = inspectSuite }

func inspectSuite(t *tracer) error {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var q struct{ What, Path, Path2 string }
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			return err
		}
		a := "bad"
		if p := guard(func() { a = inspectFile(q.What, q.Path, q.Path2) }); p != "" {
			a = "bad"
		}
		fmt.Println(a)
	}
	return nil
}

func fingerprint(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:8]) }

func inspectFile(what, path, path2 string) string {
	if strings.HasPrefix(what, "make ") {
		makePair(what[5:], path, path2)
		return "ok"
	}
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return "bad"
	}
	switch what {
	case "spriv":
		if len(b) != 64 || string(ed25519.NewKeyFromSeed(b[:32])) != string(b) {
			return "bad"
		}
		return "ed" + fingerprint(b[32:])
	case "vpriv":
		if len(b) != 64 || string(edMul(refVrfSecret(b), edG).bytes()) != string(b[32:]) {
			return "bad"
		}
		return "vr" + fingerprint(b[32:])
	case "spub", "vpub":
		if len(b) != 32 {
			return "bad"
		}
		return map[string]string{"spub": "ed", "vpub": "vr"}[what] + fingerprint(b)
	case "pkey", "pem":
		blk, _ := pem.Decode(b)
		if blk == nil {
			return "bad"
		}
		var pub interface{}
		if what == "pem" {
			c, err := x509.ParseCertificate(blk.Bytes)
			if err != nil || time.Now().Before(c.NotBefore.Add(-time.Minute)) || time.Now().After(c.NotAfter) {
				return "bad"
			}
			pub = c.PublicKey
		} else {
			k, err := x509.ParseECPrivateKey(blk.Bytes)
			if err != nil {
				return "bad"
			}
			pub = &k.PublicKey
		}
		d, err := x509.MarshalPKIXPublicKey(pub)
		if err != nil {
			return "bad"
		}
		return "ec" + fingerprint(d)
	case "istr":
		var s struct {
			Epoch     *uint64
			Signature []byte
		}
		if json.Unmarshal(b, &s) != nil || s.Epoch == nil || *s.Epoch != 0 || len(s.Signature) != 64 {
			return "bad"
		}
		return "st" + fingerprint(b)
	case "scfg":
		var c struct {
			LoadedHistoryLength uint64 `toml:"loaded_history_length"`
			EpochDeadline       uint64 `toml:"epoch_deadline"`
			InitSTRPath         string `toml:"init_str_path"`
			Policies            struct {
				EpochDeadline uint64 `toml:"epoch_deadline"`
				Sign          string `toml:"sign_key_path"`
				VRF           string `toml:"vrf_key_path"`
			} `toml:"policies"`
			Addresses []struct {
				Address           string `toml:"address"`
				AllowRegistration bool   `toml:"allow_registration"`
				Cert, Key         string
			} `toml:"addresses"`
		}
		if _, err := toml.DecodeFile(path, &c); err != nil {
			return "bad"
		}
		local, public := false, false
		for _, a := range c.Addresses {
			if strings.HasPrefix(a.Address, "unix://") {
				local = local || a.AllowRegistration
			} else if a.AllowRegistration { // open to the public
				return "public registration"
			} else {
				public = true
			}
		}
		if c.LoadedHistoryLength == 0 || c.EpochDeadline == 0 || c.EpochDeadline != c.Policies.EpochDeadline || c.InitSTRPath == "" || !local || !public {
			return "bad"
		}
		return "ok"
	case "ccfg":
		var c struct {
			Sign string `toml:"sign_pubkey_path"`
			Init string `toml:"init_str_path"`
			Addr string `toml:"address"`
		}
		if _, err := toml.DecodeFile(path, &c); err != nil || c.Sign == "" || c.Init == "" || c.Addr == "" {
			return "bad"
		}
		return "ok"
	case "bcfg":
		c := &bots.TwitterConfig{}
		if err := c.Load(path, "toml"); err != nil || c.Handle == "" || c.CONIKSAddress == "" {
			return "bad"
		}
		return "ok"
	}
	return "bad"
}

// makePair writes a pair of keys made elsewhere.
func makePair(what, priv, pub string) {
	w := func(f string, b []byte) {
		if f == "" {
			return
		}
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := ioutil.WriteFile(f, b, 0600); err != nil {
			fatal(err)
		}
	}
	switch what {
	case "sign":
		p, s, _ := ed25519.GenerateKey(rand.Reader)
		w(priv, s)
		w(pub, p)
	case "vrf":
		s := make([]byte, 64)
		rand.Read(s[:32])
		copy(s[32:], edMul(refVrfSecret(s), edG).bytes())
		w(priv, s)
		w(pub, s[32:])
	case "tls":
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			fatal(err)
		}
		n, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
		c := &x509.Certificate{SerialNumber: n, Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(5 * time.Hour),
			KeyUsage: x509.KeyUsageDigitalSignature, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
		der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
		if err != nil {
			fatal(err)
		}
		kb, _ := x509.MarshalECPrivateKey(k)
		w(priv, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))
		w(pub, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	}
}
