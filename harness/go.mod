module kfv

go 1.21

require (
	github.com/antlr4-go/antlr/v4 v4.13.0
	github.com/kwilteam/kwil-db/parse v0.1.2
	github.com/spf13/cobra v1.7.0
	github.com/stretchr/testify v1.8.4
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/kwilteam/action-grammar-go v0.1.1 // indirect
	github.com/kwilteam/sql-grammar-go v0.1.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/rogpeppe/go-internal v1.9.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/exp v0.0.0-20230817173708-d852ddb80c63 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/kwilteam/kuneiform v0.0.0

replace github.com/kwilteam/kuneiform => /repo
