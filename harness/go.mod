module verifharness

go 1.26.2

require pgregory.net/rapid v1.3.0
