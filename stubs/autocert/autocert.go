// Package autocert is a type-level stand-in for golang.org/x/crypto/acme/autocert, used by the
// checker's loader only.
package autocert

import (
	"context"
	"crypto/tls"
	"net"
)

type Cache interface {
	Get(ctx context.Context, key string) ([]byte, error)
	Put(ctx context.Context, key string, data []byte) error
	Delete(ctx context.Context, key string) error
}

type DirCache string

func (d DirCache) Get(ctx context.Context, name string) ([]byte, error)    { return nil, nil }
func (d DirCache) Put(ctx context.Context, name string, data []byte) error { return nil }
func (d DirCache) Delete(ctx context.Context, name string) error           { return nil }

type HostPolicy func(ctx context.Context, host string) error

func HostWhitelist(hosts ...string) HostPolicy { return nil }

func AcceptTOS(tosURL string) bool { return true }

type Manager struct {
	Prompt     func(tosURL string) bool
	Cache      Cache
	HostPolicy HostPolicy
	Email      string
}

func (m *Manager) TLSConfig() *tls.Config { return nil }
func (m *Manager) Listener() net.Listener { return nil }
func (m *Manager) GetCertificate(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
	return nil, nil
}
