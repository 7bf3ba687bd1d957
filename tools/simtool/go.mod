module simtool

go 1.22
