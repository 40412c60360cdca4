module verif/harness

go 1.23

require (
	github.com/mattn/go-runewidth v0.0.16
	pgregory.net/rapid v1.3.0
)

require github.com/rivo/uniseg v0.2.0 // indirect
