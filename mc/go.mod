module verifmc

go 1.23

require (
	github.com/Foxcapades/goop v1.0.1
	github.com/Foxcapades/lib-go-raml v0.0.0
	github.com/Foxcapades/lib-go-yaml v1.4.0
	github.com/sirupsen/logrus v1.6.0
	gopkg.in/yaml.v3 v3.0.0-20200615113413-eeeca48fe776
)

require (
	github.com/Foxcapades/gomp v1.3.4 // indirect
	golang.org/x/sys v0.0.0-20200625212154-ddb9806d33ae // indirect
)

replace github.com/Foxcapades/lib-go-raml => /repo
