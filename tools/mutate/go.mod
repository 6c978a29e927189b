module x
go 1.23
