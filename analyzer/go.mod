module verif/analyzer

go 1.23.0

toolchain go1.23.12

require golang.org/x/tools v0.31.0

require (
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.12.0 // indirect
	gopkg.in/yaml.v2 v2.4.0
)
