// Code generated by tools/genshim; DO NOT EDIT.

package os

import real_ "os"

var Chdir = real_.Chdir
var Chmod = real_.Chmod
var Chown = real_.Chown
var Chtimes = real_.Chtimes
var Clearenv = real_.Clearenv
var CopyFS = real_.CopyFS
var Create = real_.Create
var CreateTemp = real_.CreateTemp

const DevNull = real_.DevNull

type DirEntry = real_.DirEntry

var DirFS = real_.DirFS
var ErrClosed = real_.ErrClosed
var ErrDeadlineExceeded = real_.ErrDeadlineExceeded
var ErrExist = real_.ErrExist
var ErrInvalid = real_.ErrInvalid
var ErrNoDeadline = real_.ErrNoDeadline
var ErrNoHandle = real_.ErrNoHandle
var ErrNotExist = real_.ErrNotExist
var ErrPermission = real_.ErrPermission
var ErrProcessDone = real_.ErrProcessDone
var Executable = real_.Executable
var Expand = real_.Expand
var ExpandEnv = real_.ExpandEnv

type File = real_.File
type FileInfo = real_.FileInfo
type FileMode = real_.FileMode

var FindProcess = real_.FindProcess
var Getegid = real_.Getegid
var Geteuid = real_.Geteuid
var Getgid = real_.Getgid
var Getgroups = real_.Getgroups
var Getpagesize = real_.Getpagesize
var Getuid = real_.Getuid
var Getwd = real_.Getwd
var Interrupt = real_.Interrupt
var IsExist = real_.IsExist
var IsNotExist = real_.IsNotExist
var IsPathSeparator = real_.IsPathSeparator
var IsPermission = real_.IsPermission
var IsTimeout = real_.IsTimeout
var Kill = real_.Kill
var Lchown = real_.Lchown
var Link = real_.Link

type LinkError = real_.LinkError

var Lstat = real_.Lstat
var Mkdir = real_.Mkdir
var MkdirAll = real_.MkdirAll
var MkdirTemp = real_.MkdirTemp

const ModeAppend = real_.ModeAppend
const ModeCharDevice = real_.ModeCharDevice
const ModeDevice = real_.ModeDevice
const ModeDir = real_.ModeDir
const ModeExclusive = real_.ModeExclusive
const ModeIrregular = real_.ModeIrregular
const ModeNamedPipe = real_.ModeNamedPipe
const ModePerm = real_.ModePerm
const ModeSetgid = real_.ModeSetgid
const ModeSetuid = real_.ModeSetuid
const ModeSocket = real_.ModeSocket
const ModeSticky = real_.ModeSticky
const ModeSymlink = real_.ModeSymlink
const ModeTemporary = real_.ModeTemporary
const ModeType = real_.ModeType

var NewFile = real_.NewFile
var NewSyscallError = real_.NewSyscallError

const O_APPEND = real_.O_APPEND
const O_CREATE = real_.O_CREATE
const O_EXCL = real_.O_EXCL
const O_RDONLY = real_.O_RDONLY
const O_RDWR = real_.O_RDWR
const O_SYNC = real_.O_SYNC
const O_TRUNC = real_.O_TRUNC
const O_WRONLY = real_.O_WRONLY

var Open = real_.Open
var OpenFile = real_.OpenFile
var OpenInRoot = real_.OpenInRoot
var OpenRoot = real_.OpenRoot

type PathError = real_.PathError

const PathListSeparator = real_.PathListSeparator
const PathSeparator = real_.PathSeparator

var Pipe = real_.Pipe

type ProcAttr = real_.ProcAttr
type Process = real_.Process
type ProcessState = real_.ProcessState

var ReadDir = real_.ReadDir
var ReadFile = real_.ReadFile
var Readlink = real_.Readlink
var Remove = real_.Remove
var RemoveAll = real_.RemoveAll
var Rename = real_.Rename

type Root = real_.Root

const SEEK_CUR = real_.SEEK_CUR
const SEEK_END = real_.SEEK_END
const SEEK_SET = real_.SEEK_SET

var SameFile = real_.SameFile
var Setenv = real_.Setenv

type Signal = real_.Signal

var StartProcess = real_.StartProcess
var Stat = real_.Stat
var Symlink = real_.Symlink

type SyscallError = real_.SyscallError

var TempDir = real_.TempDir
var Truncate = real_.Truncate
var Unsetenv = real_.Unsetenv
var UserCacheDir = real_.UserCacheDir
var UserConfigDir = real_.UserConfigDir
var UserHomeDir = real_.UserHomeDir
var WriteFile = real_.WriteFile
