// Code generated by tools/genshim; DO NOT EDIT.

package rand

import real_ "math/rand/v2"

type ChaCha8 = real_.ChaCha8

var New = real_.New
var NewChaCha8 = real_.NewChaCha8
var NewPCG = real_.NewPCG
var NewZipf = real_.NewZipf

type PCG = real_.PCG
type Rand = real_.Rand
type Source = real_.Source
type Zipf = real_.Zipf
