// Code generated: everything of crypto/rand that is not replaced.

package vcrand

import std "crypto/rand"

var Int = std.Int
var Prime = std.Prime
