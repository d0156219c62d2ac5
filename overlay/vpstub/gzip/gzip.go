package gzip

const Name = "gzip"
