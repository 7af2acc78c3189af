module verif/sim

go 1.27

require github.com/tg123/phabrik v0.0.0

replace github.com/tg123/phabrik => /repo
