module github.com/mmcloughlin/trunnel

go 1.26.0

require (
	github.com/mmcloughlin/random v0.0.0
	github.com/pkg/errors v0.9.1
	github.com/serenize/snaker v0.0.0-20201027110005-a7ad2135616e
	github.com/spf13/afero v1.15.0
	github.com/stretchr/testify v1.12.1
	golang.org/x/tools v0.52.0
	gopkg.in/yaml.v2 v2.4.0
)

require (
	go.yaml.in/yaml/v3 v3.0.5 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/text v0.28.0 // indirect
)

replace github.com/mmcloughlin/random => /verif/stubs/random
