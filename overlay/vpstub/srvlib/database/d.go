package database

import rd "github.com/si-co/vpir-code/lib/database"

type Info = rd.Info
type Merkle = rd.Merkle
type DB = rd.DB
type Bytes = rd.Bytes

// Files are the files the last database was made of.
var Files []string

// the databases a program has made
var (
	Keys    = &DB{}
	Records = &Bytes{}
	Proofs  = &Bytes{}
)

func GenerateRealKeyDB(f []string) (*DB, error) { Files = f; return Keys, nil }
func GenerateRealKeyBytes(f []string, rebalanced bool) (*Bytes, error) {
	Files = f
	return Records, nil
}
func GenerateRealKeyMerkle(f []string, rebalanced bool) (*Bytes, error) {
	Files = f
	return Proofs, nil
}
