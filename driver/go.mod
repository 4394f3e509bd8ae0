module verif/driver

go 1.13

require (
	github.com/eaburns/peggy v1.0.0
	github.com/eaburns/pretty v1.0.0
	github.com/eaburns/toaq v0.0.0
)

replace github.com/eaburns/toaq => /repo
