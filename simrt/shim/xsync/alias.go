// Code generated by tools/genshim; DO NOT EDIT.

package sync
