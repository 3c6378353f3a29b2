module yotverif

go 1.16

require (
	github.com/Masterminds/sprig/v3 v3.2.2
	github.com/google/uuid v1.2.0 // indirect
	github.com/huandu/xstrings v1.3.2 // indirect
	github.com/imdario/mergo v0.3.12 // indirect
	github.com/mitchellh/copystructure v1.2.0 // indirect
	github.com/rwtodd/Go.Sed v0.0.0-20190103233418-906bc69c9394
	github.com/vmware-labs/yaml-jsonpath v0.3.2
	golang.org/x/crypto v0.0.0-20210921155107-089bfa567519 // indirect
	gopkg.in/yaml.v3 v3.0.0-20210107192922-496545a6307b
)
