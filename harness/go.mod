module verif/harness

go 1.25.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/oarkflow/permission v0.0.0
)

require (
	github.com/oarkflow/maps v0.0.0-20240406152114-fc5a94538f01 // indirect
	github.com/oarkflow/xsync v0.0.5 // indirect
	golang.org/x/exp v0.0.0-20240404231335-c0f41cb1a7a0 // indirect
)

replace github.com/oarkflow/permission => /repo
