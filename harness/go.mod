module vfh

go 1.23

require github.com/go-ego/gse v0.0.0

require (
	github.com/vcaesar/cedar v0.20.2
)

replace github.com/go-ego/gse => /repo
