package main

import (
	"testing"

	"verif/harness/pbt"
)

func FuzzCheck(f *testing.F) { pbt.Fuzz(f) }
