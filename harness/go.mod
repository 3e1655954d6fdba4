module verifharness

go 1.15

require github.com/maxnikulin/burl v0.0.0

replace github.com/maxnikulin/burl => /repo
