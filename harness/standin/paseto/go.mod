module zntr.io/paseto

go 1.21
