module verif

go 1.22
