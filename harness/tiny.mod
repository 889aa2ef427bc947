module zkrpmc

go 1.13

require (
	github.com/ethereum/go-ethereum v1.9.10
	github.com/ing-bank/zkrp v0.0.0
)

replace github.com/ing-bank/zkrp => /repo

replace github.com/ethereum/go-ethereum => ./stubs/go-ethereum
