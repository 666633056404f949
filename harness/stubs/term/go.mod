module golang.org/x/term

go 1.17
