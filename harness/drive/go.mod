module drive

go 1.18
