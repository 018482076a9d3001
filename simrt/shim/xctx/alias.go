// Code generated by tools/genshim; DO NOT EDIT.

package context

import real_ "context"

var AfterFunc = real_.AfterFunc
var Background = real_.Background

type CancelCauseFunc = real_.CancelCauseFunc
type CancelFunc = real_.CancelFunc

var Canceled = real_.Canceled

type Context = real_.Context

var DeadlineExceeded = real_.DeadlineExceeded
var TODO = real_.TODO
var WithDeadlineCause = real_.WithDeadlineCause
var WithTimeoutCause = real_.WithTimeoutCause
var WithValue = real_.WithValue
var WithoutCancel = real_.WithoutCancel
