// Code generated by tools/genshim; DO NOT EDIT.

package rand

import real_ "math/rand"

var New = real_.New
var NewSource = real_.NewSource
var NewZipf = real_.NewZipf

type Rand = real_.Rand
type Source = real_.Source
type Source64 = real_.Source64
type Zipf = real_.Zipf
