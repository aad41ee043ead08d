module a.verif/harness

go 1.19
