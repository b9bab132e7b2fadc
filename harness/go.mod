module verif/harness

go 1.19

require github.com/ilius/go-table v0.0.0

require github.com/ilius/go-lru v0.1.0 // indirect

replace github.com/ilius/go-table => /repo
