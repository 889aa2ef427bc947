module github.com/ethereum/go-ethereum

go 1.13
