module github.com/go-air/gini/vh

go 1.16

require github.com/go-air/gini v0.0.0

replace github.com/go-air/gini => /repo
