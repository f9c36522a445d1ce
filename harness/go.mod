module verif/harness

go 1.24

require (
	github.com/qiniu/uip v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/qiniu/uip => /repo
