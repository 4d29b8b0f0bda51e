module gocv

go 1.25
