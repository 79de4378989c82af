module verif/contracts

go 1.24

require github.com/twuillemin/modes v0.0.0

replace github.com/twuillemin/modes => /repo
