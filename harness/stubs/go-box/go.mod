module github.com/nyaosorg/go-box/v2

go 1.18
