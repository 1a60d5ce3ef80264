module vh

go 1.22
