package main

import (
	"math/rand"
	"os"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func mkdir(dir string) error { return os.MkdirAll(dir, 0o755) }
