module parlexverif

go 1.23

require (
	github.com/adamcolton/parlex v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/adamcolton/parlex => /repo
