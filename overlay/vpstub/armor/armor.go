// Package armor: armoring is the identity.
package armor

import "io"

type w struct{ io.Writer }

func (w) Close() error { return nil }

func Encode(out io.Writer, blockType string, headers map[string]string) (io.WriteCloser, error) {
	return w{out}, nil
}
