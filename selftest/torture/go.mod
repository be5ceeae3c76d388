module github.com/fwhezfwhez/tcpx

go 1.21
