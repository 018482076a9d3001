module verif

go 1.27

godebug default=go1.20
