module verifharness

go 1.23

require (
	github.com/soypat/sdf v0.0.0
	gonum.org/v1/gonum v0.11.1-0.20220625074215-67f3e1dbfccc
	pgregory.net/rapid v1.3.0
)

require (
	github.com/chewxy/math32 v1.10.1 // indirect
	golang.org/x/exp v0.0.0-20220613132600-b0d781184e0d // indirect
)

replace github.com/soypat/sdf => /repo
