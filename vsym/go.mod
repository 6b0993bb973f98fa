module verif/vsym

go 1.21
