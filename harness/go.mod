module verif

go 1.23

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => /repo
