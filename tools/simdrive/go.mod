module simdrive

go 1.22
