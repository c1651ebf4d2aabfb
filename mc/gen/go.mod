module vmcgen

go 1.24
