// Code generated by reexport; DO NOT EDIT.

package sync

import std "sync"

type Map = std.Map
type Pool = std.Pool

var _ = std.NewCond
