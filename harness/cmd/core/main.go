package main

import "verif/harness/pbt"

func main() { pbt.Main() }
