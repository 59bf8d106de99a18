module mutate

go 1.25
