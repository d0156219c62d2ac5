package credentials

import (
	"crypto/tls"

	rc "google.golang.org/grpc/credentials"
)

type TransportCredentials = rc.TransportCredentials

func NewTLS(c *tls.Config) TransportCredentials { return nil }
