package main

func selftest() int { return 0 }
