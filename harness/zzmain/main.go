// Command zzmain replays counterexamples on the real code.
package main

import "github.com/ryanolee/go-chaff/zzverif"

func main() { zzverif.ReplayMain() }
