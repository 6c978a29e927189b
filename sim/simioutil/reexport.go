// Code generated by reexport; DO NOT EDIT.

package ioutil

import std "io/ioutil"

var Discard = std.Discard
var NopCloser = std.NopCloser
var ReadAll = std.ReadAll

var _ = std.NopCloser
