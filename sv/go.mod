module verif/sv

go 1.24.0
