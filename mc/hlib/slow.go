package hlib

import "verif/mc/vtime"

// Slow lets an hour pass once nothing else can happen.
func Slow(site string) { vtime.Slow(site) }
