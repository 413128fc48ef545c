module verif

go 1.21

require (
	github.com/HannesKimara/cddlc v0.0.0
	github.com/urfave/cli/v2 v2.25.7
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.2 // indirect
	github.com/iancoleman/strcase v0.3.0 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/xrash/smetrics v0.0.0-20201216005158-039620a65673 // indirect
	golang.org/x/exp v0.0.0-20231006140011-7918f672742d // indirect
)

replace github.com/HannesKimara/cddlc => /repo
