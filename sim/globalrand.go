package main

import "math/rand"

// Other code in the process that uses the shared random source.
func globalRandDraw()           { rand.Int63() }
func globalRandSeed(seed int64) { rand.Seed(seed) }
