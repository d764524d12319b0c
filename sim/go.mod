module verifsim

go 1.26

require (
	github.com/QuangTung97/go-memcache v0.0.0
	github.com/anishathalye/porcupine v1.3.1
)
