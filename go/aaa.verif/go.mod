module aaa.verif

go 1.21
