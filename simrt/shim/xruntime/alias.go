// Code generated by tools/genshim; DO NOT EDIT.

package runtime

import real_ "runtime"

var BlockProfile = real_.BlockProfile

type BlockProfileRecord = real_.BlockProfileRecord

var Breakpoint = real_.Breakpoint
var CPUProfile = real_.CPUProfile
var Caller = real_.Caller
var Callers = real_.Callers
var CallersFrames = real_.CallersFrames

type Cleanup = real_.Cleanup

const Compiler = real_.Compiler

type Error = real_.Error
type Frame = real_.Frame
type Frames = real_.Frames
type Func = real_.Func

var FuncForPC = real_.FuncForPC

const GOARCH = real_.GOARCH

var GOMAXPROCS = real_.GOMAXPROCS

const GOOS = real_.GOOS

var GOROOT = real_.GOROOT
var GoroutineProfile = real_.GoroutineProfile
var KeepAlive = real_.KeepAlive
var LockOSThread = real_.LockOSThread
var MemProfile = real_.MemProfile
var MemProfileRate = real_.MemProfileRate

type MemProfileRecord = real_.MemProfileRecord
type MemStats = real_.MemStats

var MutexProfile = real_.MutexProfile
var NumCPU = real_.NumCPU
var NumCgoCall = real_.NumCgoCall

type PanicNilError = real_.PanicNilError
type Pinner = real_.Pinner

var ReadMemStats = real_.ReadMemStats
var ReadTrace = real_.ReadTrace
var SetBlockProfileRate = real_.SetBlockProfileRate
var SetCPUProfileRate = real_.SetCPUProfileRate
var SetCgoTraceback = real_.SetCgoTraceback
var SetDefaultGOMAXPROCS = real_.SetDefaultGOMAXPROCS
var SetMutexProfileFraction = real_.SetMutexProfileFraction
var Stack = real_.Stack

type StackRecord = real_.StackRecord

var StartTrace = real_.StartTrace
var StopTrace = real_.StopTrace
var ThreadCreateProfile = real_.ThreadCreateProfile

type TypeAssertionError = real_.TypeAssertionError

var UnlockOSThread = real_.UnlockOSThread
var Version = real_.Version
