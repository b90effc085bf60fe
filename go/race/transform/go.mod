module verif.example/transform

go 1.21
