module verif/instrument

go 1.26.0
