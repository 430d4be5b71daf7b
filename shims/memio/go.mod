module vimagination.zapto.org/memio

go 1.19
