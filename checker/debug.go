package main

import (
	"os"
	"runtime/debug"
)

var debugNil = os.Getenv("GCDEBUG") != ""

func mkDead() deadEnd {
	if debugNil {
		debug.PrintStack()
	}
	return deadEnd{}
}
