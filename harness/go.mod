module verif/harness

go 1.23

require (
	github.com/vanclief/ez v1.1.3
	github.com/vanclief/finmod v0.0.0
	github.com/vanclief/state v0.4.3
)

require (
	github.com/golang/protobuf v1.3.3 // indirect
	github.com/rs/xid v1.3.0 // indirect
	google.golang.org/genproto v0.0.0-20190819201941-24fa4b261c55 // indirect
	google.golang.org/grpc v1.29.1 // indirect
)

replace github.com/vanclief/finmod => /repo
