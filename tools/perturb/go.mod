module perturb

go 1.22
