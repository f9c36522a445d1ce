package main

import (
	"errors"

	"verif/harness/pbt"
)

func asPanic(err error, pe **pbt.PanicError) bool { return errors.As(err, pe) }
