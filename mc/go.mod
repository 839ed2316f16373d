module vsamc

go 1.24
