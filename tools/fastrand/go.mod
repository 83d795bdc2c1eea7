module github.com/valyala/fastrand

go 1.17
