module goledgersim

go 1.24
