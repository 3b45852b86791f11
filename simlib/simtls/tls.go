// Package simtls replaces the parts of crypto/tls and crypto/rsa which reach the network, the
// disk or the entropy source. The handshake and the cipher are not simulated.
package simtls

import (
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"io"
	"net"

	"verif.local/sim"
)

// Listeners records the configuration each TLS listener was created with.
var Listeners map[string]*tls.Config

func Listen(network, laddr string, config *tls.Config) (net.Listener, error) {
	if config == nil || len(config.Certificates) == 0 && config.GetCertificate == nil && config.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, err := sim.TLSListen(network, laddr)
	if err == nil && Listeners != nil {
		Listeners[laddr] = config
	}
	return l, err
}

func NewListener(inner net.Listener, config *tls.Config) net.Listener {
	if l, ok := inner.(sim.TCPListener); ok {
		l.Listener.TLS = true
		if Listeners != nil {
			Listeners[l.Listener.AddrS] = config
		}
		return l.Listener
	}
	return inner
}

func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	cert, err := sim.ReadFile(certFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	key, err := sim.ReadFile(keyFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	return tls.X509KeyPair(cert, key)
}

// Keys is the pool of private keys which generation draws from.
var Keys []*rsa.PrivateKey

var next int

// Reset starts the pool over.
func Reset() { next = 0 }

func GenerateKey(random io.Reader, bits int) (*rsa.PrivateKey, error) {
	if len(Keys) == 0 {
		return rsa.GenerateKey(random, bits)
	}
	k := Keys[next%len(Keys)]
	next++
	return k, nil
}

// ParseKey decodes a PEM-encoded key.
func ParseKey(s string) *rsa.PrivateKey {
	b, _ := pem.Decode([]byte(s))
	k, err := x509.ParsePKCS8PrivateKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k.(*rsa.PrivateKey)
}
