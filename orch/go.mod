module verif/orch

go 1.27
