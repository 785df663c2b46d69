package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

// trusted and untrusted are server certificates for 127.0.0.1; this process
// takes the first one's authority for the system's only root.
var trusted, untrusted grpc.ServerOption

// private belongs to the second authority.
var private pki

// pki is an authority's certificate, a certificate it has issued with its key,
// and a server that asks its clients for such a certificate.
type pki struct {
	ca, cert, key string
	mutual        grpc.ServerOption
}

func init() {
	authority := func(name string) (pki, grpc.ServerOption) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		now := time.Now()
		ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: now.Add(-time.Hour), NotAfter: now.Add(240 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		cader, err := x509.CreateCertificate(rand.Reader, ca, ca, key.Public(), key)
		if err != nil {
			panic(err)
		}
		leaf := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "127.0.0.1"}, NotBefore: ca.NotBefore, NotAfter: ca.NotAfter,
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, DNSNames: []string{name + ".test"},
			KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		der, err := x509.CreateCertificate(rand.Reader, leaf, ca, key.Public(), key)
		if err != nil {
			panic(err)
		}
		kder, err := x509.MarshalECPrivateKey(key)
		if err != nil {
			panic(err)
		}
		enc := func(kind string, der []byte) string {
			return string(pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}))
		}
		p := pki{ca: enc("CERTIFICATE", cader), cert: enc("CERTIFICATE", der), key: enc("EC PRIVATE KEY", kder)}
		conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der, cader}, PrivateKey: key}}}
		mconf := conf.Clone()
		mconf.ClientAuth = tls.RequireAndVerifyClientCert
		mconf.ClientCAs = x509.NewCertPool()
		mconf.ClientCAs.AppendCertsFromPEM([]byte(p.ca))
		p.mutual = grpc.Creds(credentials.NewTLS(mconf))
		return p, grpc.Creds(credentials.NewTLS(conf))
	}
	var root pki
	root, trusted = authority("trusted")
	private, untrusted = authority("private")
	f, err := os.CreateTemp("", "zzroot")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(root.ca)
	f.Close()
	os.Setenv("SSL_CERT_FILE", f.Name())
	os.Setenv("SSL_CERT_DIR", "/nonexistent")
	if _, err := x509.SystemCertPool(); err != nil { // reads the file, once
		panic(err)
	}
}

// secured chooses a signal's transport: over TLS (the default) or in the
// clear, said by the environment, an option or both.
func (k *conf) secured(env string, opt func(bool) launcher.Option) bool {
	secure := k.r.IntN(2) == 0
	text := pickStr(k.r, "true", "1", "TRUE")
	if secure {
		text = pickStr(k.r, "false", "0", "FALSE")
	}
	switch n := k.r.IntN(4); {
	case n == 0 && secure: // the default
	case n <= 1:
		k.setEnv(env, text)
	case n == 2:
		k.opt(env, !secure, opt(!secure))
	default:
		k.setEnv(env, pickStr(k.r, "false", "0", "true", "1"))
		k.opt(env, !secure, opt(!secure))
	}
	return secure
}

// distrust: with TLS on, nothing is told to an endpoint that cannot prove who
// it is or speaks in the clear; the other signal is not affected.
func distrust() func(c *hz.Case) {
	good := endpoints{newCollectorWith(trusted)}
	bad := endpoints{newCollectorWith(untrusted), newCollector("")}
	return func(c *hz.Case) {
		k := newConf(c)
		good.clear()
		bad.clear()
		b := bad[c.R.IntN(2)].addr
		spanBad := c.R.IntN(2) == 0
		addr := func(isBad bool) string {
			if isBad {
				return b
			}
			return good[0].addr
		}
		k.opt("endpoints", []string{addr(spanBad), addr(!spanBad)}, launcher.WithSpanExporterEndpoint(addr(spanBad)), launcher.WithMetricExporterEndpoint(addr(!spanBad)),
			launcher.WithServiceName("svc"), launcher.WithMetricsBuiltinsEnabled(false))
		l := k.launch()
		if !k.noFatal("configuration") {
			return
		}
		_, s := otel.Tracer("t").Start(context.Background(), "s")
		s.End()
		ctr, _ := otel.Meter("t").Int64Counter("c")
		ctr.Add(context.Background(), 1)
		if !k.shutdown(l) {
			return
		}
		c.Eval(2)
		a := good[0].take()
		if spanBad {
			if len(pointsOf(a.metrics)) != 1 && !k.lossy() {
				k.bad("metrics did not arrive over TLS: %d points", len(pointsOf(a.metrics)))
			}
		} else if n, _ := spansOf(a.traces); n["t/s"] != 1 {
			k.bad("spans did not arrive over TLS: %v", n)
		}
		for i, e := range bad {
			if a := e.take(); len(a.traces)+len(a.metrics)+len(a.mds) > 0 {
				k.bad("TLS is on and yet the endpoint %s received data", []string{"with an unknown certificate", "without TLS"}[i])
			}
		}
		c.Distinct(k.desc)
	}
}
