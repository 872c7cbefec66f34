module waterverif

go 1.24

require (
	github.com/go-playground/validator/v10 v10.5.0
	github.com/meilihao/logx v0.0.0-20170321054053-4899b1894781
	github.com/meilihao/water v0.0.0
)

require (
	github.com/go-playground/locales v0.13.0 // indirect
	github.com/go-playground/universal-translator v0.17.0 // indirect
	github.com/json-iterator/go v1.1.10 // indirect
	github.com/leodido/go-urn v1.2.0 // indirect
	github.com/modern-go/concurrent v0.0.0-20180228061459-e0a39a4cb421 // indirect
	github.com/modern-go/reflect2 v0.0.0-20180701023420-4b7aa43c6742 // indirect
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9 // indirect
	golang.org/x/text v0.3.2 // indirect
)

replace github.com/meilihao/water => /repo
