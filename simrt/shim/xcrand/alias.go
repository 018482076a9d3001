// Code generated by tools/genshim; DO NOT EDIT.

package rand

import real_ "crypto/rand"

var Prime = real_.Prime
