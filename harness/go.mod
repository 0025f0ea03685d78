module zkcverif

go 1.13

require (
	github.com/companyzero/zkc v0.0.0
	github.com/companyzero/sntrup4591761 v0.0.0-20200131011700-2b0d299dbd22
	github.com/davecgh/go-xdr v0.0.0-20161123171359-e6a2ba005892
	golang.org/x/crypto v0.0.0-20210220033148-5ea612d1eb83
)

replace github.com/companyzero/zkc => /repo
