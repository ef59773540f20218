module verif/analyzer

go 1.23
