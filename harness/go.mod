module rtspverif

go 1.25

require (
	github.com/NodeBoy2/rtspclient v0.0.0
	github.com/gorilla/websocket v1.4.0
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/NodeBoy2/rtspclient => /repo
