module github.com/atotto/clipboard

go 1.16
