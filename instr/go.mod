module verifinstr

go 1.21
