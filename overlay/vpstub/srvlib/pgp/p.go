package pgp

const SksParsedFolder = "sks"

func GetAllFiles(dir string) ([]string, error) { return []string{"a", "b", "c"}, nil }
