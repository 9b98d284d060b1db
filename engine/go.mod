module verif/engine

go 1.26.0

replace golang.org/x/net => golang.org/x/net v0.25.0

require (
	golang.org/x/net v0.61.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
