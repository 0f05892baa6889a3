module verif/sym

go 1.26.0
