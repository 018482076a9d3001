// Code generated by tools/genshim; DO NOT EDIT.

package log

import real_ "log"

const LUTC = real_.LUTC
const Ldate = real_.Ldate
const Llongfile = real_.Llongfile
const Lmicroseconds = real_.Lmicroseconds
const Lmsgprefix = real_.Lmsgprefix
const Lshortfile = real_.Lshortfile
const LstdFlags = real_.LstdFlags
const Ltime = real_.Ltime
