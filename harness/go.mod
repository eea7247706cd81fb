module zntr.io/solid-verif

go 1.25

require (
	github.com/fxamacker/cbor/v2 v2.5.0
	github.com/go-jose/go-jose/v4 v4.0.2
	go.mozilla.org/cose v0.0.0-20220818192640-18d34e90336d
	google.golang.org/genproto/googleapis/rpc v0.0.0-20231120223509-83a465c0220f
	google.golang.org/grpc v1.61.0
	google.golang.org/protobuf v1.34.0
	pgregory.net/rapid v1.3.0
	zntr.io/paseto v1.2.0
	zntr.io/solid v0.0.0
)

require (
	github.com/asaskevich/govalidator v0.0.0-20200108200545-475eaeb16496 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/dchest/uniuri v1.2.0 // indirect
	github.com/go-ozzo/ozzo-validation/v4 v4.3.0 // indirect
	github.com/gofrs/uuid v4.4.0+incompatible // indirect
	github.com/golang/protobuf v1.5.3 // indirect
	github.com/json-iterator/go v1.1.12 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	github.com/patrickmn/go-cache v2.1.0+incompatible // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/x448/float16 v0.8.4 // indirect
	golang.org/x/crypto v0.24.0 // indirect
	golang.org/x/net v0.26.0 // indirect
	golang.org/x/oauth2 v0.16.0 // indirect
	golang.org/x/sys v0.21.0 // indirect
	golang.org/x/text v0.16.0 // indirect
)

replace zntr.io/solid => /repo

replace zntr.io/paseto => ./standin/paseto
