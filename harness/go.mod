module verif

go 1.25

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/gorilla/websocket v1.4.2
	github.com/mitchellh/mapstructure v1.4.3
	github.com/pkg/errors v0.9.1
	github.com/sirupsen/logrus v1.8.1
	github.com/superisaac/jlib v0.0.0
	golang.org/x/net v0.8.0
	gopkg.in/yaml.v3 v3.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/sys v0.6.0 // indirect

replace github.com/superisaac/jlib => /repo
