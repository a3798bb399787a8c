module verifharness

go 1.23

require (
	github.com/suiyunonghen/dxsvalue v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/suiyunonghen/DxCommonLib v0.2.5 // indirect
	golang.org/x/text v0.3.4 // indirect
)

replace github.com/suiyunonghen/dxsvalue => /repo
