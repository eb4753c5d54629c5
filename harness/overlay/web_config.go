package main

// the configuration comes from the environment instead of the compiled-in
// addresses
func init() { staticConfig = false }
