// Package embed: no files.
package embed

type FS struct{}
