module limageverif

go 1.23

require (
	pgregory.net/rapid v1.3.0
	vimagination.zapto.org/limage v0.0.0
)

require (
	vimagination.zapto.org/byteio v1.0.0 // indirect
	vimagination.zapto.org/memio v1.0.0 // indirect
	vimagination.zapto.org/parser v1.0.0 // indirect
)

replace (
	vimagination.zapto.org/byteio => ../shims/byteio
	vimagination.zapto.org/limage => /repo
	vimagination.zapto.org/memio => ../shims/memio
	vimagination.zapto.org/parser => ../shims/parser
)
